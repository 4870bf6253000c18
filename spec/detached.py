"""Reference formulas for detached evolution (never imported, only analysed).

Units: masses Msun, radii and separation Rsun, times yr, angles rad.
"""
import numpy as np
import pandas as pd

import posydon.utils.constants as const
from posydon.utils.common_functions import roche_lobe_radius

# the prescription functions receive the stars; `latest` holds the properties


def gravrad(a, e, primary, secondary):
    """Junker & Schaefer 1992, MNRAS 254, 146: 1PN orbit-averaged decay."""
    m1, m2 = primary.latest["mass"], secondary.latest["mass"]
    nu = m1 * m2 / (m1 + m2)**2
    c_ = const.clight
    gm = const.standard_cgrav * (m1 + m2) * const.msol
    x = gm / (a * const.rsol) / c_**2
    w = 1 - e**2
    da = -(2 / 15) * nu * c_ * x**3 / w**4.5 * (
        (96 + 292 * e**2 + 37 * e**4) * w
        - x / 28 * (14008 + 4704 * nu + (80124 + 21560 * nu) * e**2
                    + (17325 + 10458 * nu) * e**4
                    - (5501 - 1036 * nu) * e**6 / 2))
    de = -(1 / 15) * nu * c_**3 / gm * x**4 * e / w**3.5 * (
        (304 + 121 * e**2) * w
        - x / 56 * (8 * (16705 + 4676 * nu) + 12 * (9082 + 2807 * nu) * e**2
                    - (25211 - 3388 * nu) * e**4))
    return da * const.secyer / const.rsol, de * const.secyer


def _turnover(star):
    """Convective turnover time, Rasio+1996 / Hurley+2002 eq. 31."""
    m, d, r = (star["mass_conv_reg_fortides"],
               star["thickness_conv_reg_fortides"],
               star["radius_conv_reg_fortides"])
    if (pd.notna(m) and m != 0 and pd.notna(d) and d != 0
            and pd.notna(r) and r != 0):
        return 0.431 * (m * d * r / (3 * star["L"]))**(1 / 3)
    return 1e99


def _kt(star, other, a, P_orb):
    """(k/T) of a star: the larger of convective and radiative damping."""
    tau = _turnover(star)
    P_tid = np.abs(1 / (1 / P_orb - star["omega"] / (2 * np.pi)))
    kt_conv = (2 / 21 * np.min([1, (P_tid / (2 * tau))**2]) / tau
               * star["mass_conv_reg_fortides"] / star["mass"])
    if kt_conv is None or not np.isfinite(kt_conv):
        kt_conv = 0.
    R, m = star["R"], star["mass"]
    Rc = star["conv_mx1_top_r"] - star["conv_mx1_bot_r"]
    if Rc > R or Rc <= 0 or star["conv_mx1_bot_r"] / R > 0.1:
        E2 = 1.592e-9 * m**2.84                   # Hurley+2002 eq. 43
    elif R <= 0:
        E2 = 0
    elif star["surface_h1"] > 0.4:
        E2 = 10**-0.42 * (Rc / R)**7.5            # Qin+2018
    elif star["surface_h1"] <= 0.4:
        E2 = 10**-0.93 * (Rc / R)**6.7
    else:
        E2 = 1.592e-9 * m**2.84
    q = other["mass"] / m
    kt_rad = (np.sqrt(const.standard_cgrav * m * const.msol
                      * (R * const.rsol)**2 / (a * const.rsol)**5)
              * (1 + q)**(5 / 6) * E2 * const.secyer)
    return max(kt_conv, kt_rad)


def _hut(star, other, a, e):
    """Hut 1981, A&A 99, 126, eqs 9-11."""
    f1 = 1 + 31 / 2 * e**2 + 255 / 8 * e**4 + 185 / 16 * e**6 + 25 / 64 * e**8
    f2 = 1 + 15 / 2 * e**2 + 45 / 8 * e**4 + 5 / 16 * e**6
    f3 = 1 + 15 / 4 * e**2 + 15 / 8 * e**4 + 5 / 64 * e**6
    f4 = 1 + 3 / 2 * e**2 + 1 / 8 * e**4
    f5 = 1 + 3 * e**2 + 3 / 8 * e**4
    m, R = star["mass"], star["R"]
    q = other["mass"] / m
    P_orb = np.sqrt((a / const.aursun)**3 / (m + other["mass"]))
    n = 2 * const.pi / P_orb
    kt = _kt(star, other, a, P_orb)
    w = 1 - e**2
    s = star["omega"] / n
    da = -6 * kt * q * (1 + q) * (R / a)**8 * a / w**7.5 * (f1 - w**1.5 * f2 * s)
    de = -27 * kt * q * (1 + q) * (R / a)**8 * e / w**6.5 * (
        f3 - 11 / 18 * w**1.5 * f4 * s)
    dO = (3 * kt * q**2 * m * R**2 / star["inertia"] * (R / a)**6 * n / w**6
          * (f2 - w**1.5 * f5 * s))
    return da, de, dO


def tides(a, e, primary, secondary):
    p, s = primary.latest, secondary.latest
    da1, de1, dO1 = _hut(p, s, a, e)
    da2, de2, dO2 = _hut(s, p, a, e)
    return da1 + da2, de1 + de2, dO2, dO1


def sep_from_winds(a, e, primary, secondary):
    """Fast isotropic winds: a (m1 + m2) stays constant."""
    m1, m2 = primary.latest["mass"], secondary.latest["mass"]
    return -a * (primary.latest["mdot"] + secondary.latest["mdot"]) / (m1 + m2)


def _spin_wind(s):
    return (2 / 3 * s["R"]**2 * s["omega"] * s["mdot"] / s["inertia"]
            + np.min([-s["omega"] * s["Idot"] / s["inertia"], 100]))


def spin_from_winds(a, e, primary, secondary):
    return _spin_wind(secondary.latest), _spin_wind(primary.latest)


def _window(m):
    return np.clip((1.5 - m) / 0.2, 0, 1)


def _rvj83(s):
    """Rappaport, Verbunt & Joss 1983: -3.8e-30 m R^4 Omega^3 dyn cm."""
    return (-3.8e-30 * const.rsol**2 / const.secyer * s["mass"] * s["R"]**4
            * s["omega"]**3 / s["inertia"] * _window(s["mass"]))


def rvj83(primary, secondary):
    return _rvj83(secondary.latest), _rvj83(primary.latest)


def _m15(s):
    """Matt+2015 with Gossage+2021 constants."""
    m, R, w, tau = s["mass"], s["R"], s["omega"], s["conv_env_turnover_time_l_b"]
    K = -1.4e30 * const.secyer**2 / (const.msol * const.rsol**2)
    w_sol = 2.6e-6 * const.secyer
    crit = np.sqrt(const.standard_cgrav * m * const.msol
                   / (R * const.rsol)**3) * const.secyer
    gamma = (1 + (w / crit / 0.072)**2)**0.5
    T0 = K * R**3.1 * m**0.5 * gamma**-0.44
    if 2 * np.pi / w / tau < 0.14:
        t = T0 * (2 / 0.14)**2.6 * (w / w_sol)
    else:
        t = T0 * (tau * 365.25 / 12.9)**2.6 * (w / w_sol)**3.6
    return t / s["inertia"] * _window(m)


def m15(primary, secondary):
    return _m15(secondary.latest), _m15(primary.latest)


def _g18(s):
    """Garraffo+2018 with Gossage+2021 constants."""
    tau, w = s["conv_env_turnover_time_l_b"], s["omega"]
    Ro = 2 * np.pi / w / tau
    Q = 4.05 * np.exp(-1.4 * (0.03 / Ro + 0.5 * Ro + 1))
    return (-3e41 / (const.msol * const.rsol**2) * w**3 * tau * Q
            / s["inertia"] * _window(s["mass"]))


def g18(primary, secondary):
    return _g18(secondary.latest), _g18(primary.latest)


def _carb(s):
    """Van & Ivanova 2019: (R_A/R)^3 = B^4 R^4 / (mdot^2 (v_esc^2 + 2 O^2 R^2/K2^2)),
    B = 1 G (O/O_sun) (tau/tau_sun); evaluated in cgs."""
    m, R, w = s["mass"], s["R"], s["omega"]
    tau, mdot = s["conv_env_turnover_time_l_b"], s["mdot"]
    B = (w / const.secyer / 3e-6) * (tau * const.secyer / 2.8e6)
    Rc, wc = R * const.rsol, w / const.secyer
    md = mdot * const.msol / const.secyer
    v2 = (2 * const.standard_cgrav * m * const.msol / Rc
          + 2 * wc**2 * Rc**2 / 0.07**2)
    if abs(mdot) > 0:
        x3 = B**4 * Rc**4 / (md**2 * v2)
    else:
        x3 = 0.
    dO = (2 / 3 * w * mdot * (R * x3**(1 / 3))**2 / s["inertia"] * _window(m))
    return -abs(dO)


def carb(primary, secondary):
    return _carb(secondary.latest), _carb(primary.latest)


def inspiral(s, y):
    """Peters 1964 with s = -ln(a/a0), l = ln e, tau = t / (5/64 c^5 a0^4/(G^3 m1 m2 M))."""
    e = np.exp(y[0])
    if e**2 >= 1:
        return [0., 0., 0., 0.]
    enh = 1 + 73 / 24 * e**2 + 37 / 96 * e**4
    dl = -19 / 12 * (1 - e**2) * (1 + 121 / 304 * e**2) / enh
    dtau = np.exp(-4 * s) * (1 - e**2)**3.5 / enh
    return [dl, dtau, 0., 0.]


# right-hand side of the orbit integration with one process switched on

def _fin(x):
    if np.isfinite(x):
        return x
    return 0.


def rhs_tides(self, t, y):
    self.update_props(t, y)
    da, de, o2, o1 = tides(self.a, self.e, self.primary, self.secondary)
    return [_fin(da), _fin(de), _fin(o2), _fin(o1)]


def rhs_gravrad(self, t, y):
    self.update_props(t, y)
    da, de = gravrad(self.a, self.e, self.primary, self.secondary)
    return [_fin(da), _fin(de), 0., 0.]


def rhs_sep_winds(self, t, y):
    self.update_props(t, y)
    da = sep_from_winds(self.a, self.e, self.primary, self.secondary)
    return [_fin(da), 0., 0., 0.]


def rhs_spin_winds(self, t, y):
    self.update_props(t, y)
    o2, o1 = spin_from_winds(self.a, self.e, self.primary, self.secondary)
    return [0., 0., _fin(o2), _fin(o1)]


def rhs_braking(self, t, y):
    self.update_props(t, y)
    mode = self.magnetic_braking_mode
    if mode == "RVJ83":
        o2, o1 = rvj83(self.primary, self.secondary)
    elif mode == "M15":
        o2, o1 = m15(self.primary, self.secondary)
    elif mode == "G18":
        o2, o1 = g18(self.primary, self.secondary)
    else:
        o2, o1 = carb(self.primary, self.secondary)
    return [0., 0., _fin(o2), _fin(o1)]


# events: RLO starts when R exceeds 95% of the Roche lobe at periastron

def _lobe(m1, m2, r):
    return roche_lobe_radius(m1, m2, r)


def ev_rlo1(primary, secondary, t, y):
    p, s = primary.interp1d(t), secondary.interp1d(t)
    return s["R"] - 0.95 * _lobe(s["mass"], p["mass"], y[0] * (1 - y[1]))


def ev_rlo2(primary, secondary, t, y):
    p, s = primary.interp1d(t), secondary.interp1d(t)
    return p["R"] - 0.95 * _lobe(p["mass"], s["mass"], y[0] * (1 - y[1]))


def ev_rel_rlo1(primary, secondary, t, y):
    p, s = primary.interp1d(t), secondary.interp1d(t)
    return s["R"] / _lobe(s["mass"], p["mass"], y[0] * (1 - y[1])) - 1


def ev_rel_rlo2(primary, secondary, t, y):
    p, s = primary.interp1d(t), secondary.interp1d(t)
    return p["R"] / _lobe(p["mass"], s["mass"], y[0] * (1 - y[1])) - 1


def ev_max_time1(primary, secondary, t, y):
    return secondary.t_max + secondary.t_offset - t


def ev_max_time2(primary, secondary, t, y):
    return primary.t_max + primary.t_offset - t
