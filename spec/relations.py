"""Reference for the elementary relations (never imported, only analysed)."""
import numpy as np
import pandas as pd
from scipy.integrate import quad

import posydon.utils.constants as const
from posydon.utils.limits_thresholds import (
    LG_MTRANSFER_RATE_THRESHOLD, LOG10_BURNING_THRESHOLD, REL_LOG10_BURNING_THRESHOLD,
    RL_RELATIVE_OVERFLOW_THRESHOLD, STATE_NS_STARMASS_LOWER_LIMIT,
    STATE_NS_STARMASS_UPPER_LIMIT, STATE_WD_STARMASS_UPPER_LIMIT,
    THRESHOLD_CENTRAL_ABUNDANCE, THRESHOLD_HE_NAKED_ABUNDANCE)


# --------------------------------------------------------------------- orbits

def roche_lobe_radius(m1, m2, a_orb):
    """Eggleton 1983; no lobe without a positive separation and two masses."""
    if a_orb < 0 or m1 <= 0 or m2 <= 0:
        return np.nan
    q13 = (m1 / m2)**(1 / 3)
    return a_orb * 0.49 * q13**2 / (0.6 * q13**2 + np.log(1 + q13))


def check_for_RLO(m1, r1, m2, r2, separation, tolerance):
    fits1 = r1 - roche_lobe_radius(m1, m2, separation) < tolerance
    fits2 = r2 - roche_lobe_radius(m2, m1, separation) < tolerance
    if fits1 and fits2:
        return False
    return True


def orbital_separation_from_period(period_days, m1_solar, m2_solar):
    """Kepler's third law."""
    P = period_days * const.day2sec
    GM = const.standard_cgrav * const.Msun * (m1_solar + m2_solar)
    return (GM * P**2 / (2 * const.pi)**2)**(1 / 3) / const.Rsun


def orbital_period_from_separation(separation, m1, m2):
    """Kepler's third law in years, au and solar masses."""
    return const.dayyer * np.sqrt((separation / const.aursun)**3 / (m1 + m2))


def period_evol_wind_loss(M_current, M_init, Mcomp, P_init):
    """Fast wind: P (M1+M2)^2 is constant."""
    return P_init * ((M_init + Mcomp) / (M_current + Mcomp))**2


def separation_evol_wind_loss(M_current, M_init, Mcomp, A_init):
    """Fast wind: a (M1+M2) is constant."""
    return A_init * (M_init + Mcomp) / (M_current + Mcomp)


def period_change_stable_MT(period_i, Mdon_i, Mdon_f, Macc_i, alpha, beta):
    """Fraction alpha leaves in a fast wind of the donor, beta of the rest from the
    accretor (Sorensen et al. 2018, eq. 7)."""
    if Mdon_f > Mdon_i:
        raise ValueError
    if alpha < 0 or alpha > 1 or beta < 0 or beta > 1:
        raise ValueError
    Macc_f = Macc_i + (1 - alpha) * (1 - beta) * (Mdon_i - Mdon_f)
    if beta == 1.0:
        x = np.exp(-3 * (1 - alpha) * (Mdon_i - Mdon_f) / Macc_f)
    else:
        x = (Macc_f / Macc_i)**(-3 / (1 - beta))
    return period_i * (Mdon_f / Mdon_i)**(-3 * (1 - alpha)) * x * (
        (Mdon_i + Macc_i) / (Mdon_f + Macc_f))**2


def beta_gw(star1_mass, star2_mass):
    return 12.8 * const.standard_cgrav**3 * star1_mass * star2_mass * (
        star1_mass + star2_mass) / const.clight**5


def inspiral(star1_mass, star2_mass, separation, eccentricity):
    """Peters 1964, in Myr."""
    e = eccentricity
    if star1_mass <= 0 or star2_mass <= 0 or separation <= 0 or e < 0 or e >= 1:
        raise ValueError
    beta = beta_gw(star1_mass * const.Msun, star2_mass * const.Msun)
    a = separation * const.Rsun
    if e == 0:
        t = a**4 / beta / 4
    else:
        c0 = a * (1 - e**2) / (e**(12 / 19) * (1 + 121 / 304 * e**2)**(870 / 2299))

        def integrand(x):
            return (x**(29 / 19) * (1 + 121 / 304 * x**2)**(1181 / 2299)
                    / (1 - x**2)**1.5)
        t = 12 / 19 * c0**4 / beta * quad(integrand, 0.0, e)[0]
    return t / const.secyer / 1e6


# -------------------------------------------------------------- compact objects

def stefan_boltzmann_law(L, R):
    return (L * const.Lsun / (4 * const.pi * const.boltz_sigma
                              * (R * const.Rsun)**2))**0.25


def CO_radius(M, COtype):
    if M <= 0:
        raise ValueError
    if COtype == "BH":
        return 2 * const.standard_cgrav * M * const.Msun / const.clight**2 / const.Rsun
    if COtype == "NS":
        return 1.25e6 / const.Rsun
    if COtype == "WD":
        return 2.9e8 * M**(-1 / 3) / const.Rsun
    raise ValueError


def Schwarzschild_Radius(M):
    return 2 * const.standard_cgrav * M * const.Msun / const.clight**2 / const.Rsun


def He_MS_lifetime(mass):
    if mass <= 0:
        raise ValueError
    if mass < 2:
        return 1e8
    if mass < 10:
        return 10**(8.7855 - 2.6094 * np.log10(mass))
    if mass < 100:
        return 10**(6.875 - 0.69897 * np.log10(mass))
    return 3e5


def spin_stable_mass_transfer(spin_i, star_mass_preMT, star_mass_postMT):
    """Bardeen 1970 from the ISCO of the initial spin."""
    if spin_i is None or star_mass_preMT is None or star_mass_postMT is None:
        return None
    if spin_i < 0 or star_mass_preMT <= 0 or star_mass_postMT <= 0:
        return None
    z1 = 1 + (1 - spin_i**2)**(1 / 3) * ((1 + spin_i)**(1 / 3) + (1 - spin_i)**(1 / 3))
    z2 = np.sqrt(3 * spin_i**2 + z1**2)
    r = 3 + z2 - np.sqrt((3 - z1) * (3 + z1 + 2 * z2))
    x = star_mass_postMT / star_mass_preMT
    if 1 <= x and x <= np.sqrt(r):
        return np.sqrt(r) / (3 * x) * (4 - np.sqrt(3 * r / x**2 - 2))
    if x > np.sqrt(r):
        return 1.0
    return np.nan


def eddington_limit(kind, m_acc, surface_h1):
    """Eddington rate (Msun/yr) and radiative efficiency of an accreting remnant."""
    if pd.isna(surface_h1):
        X = 0.7155
    else:
        X = surface_h1
    m = m_acc * const.msol
    if kind == "BH":
        eta = 1 - np.sqrt(1 - (min(m, np.sqrt(6) * m) / (3 * m))**2)
    else:
        eta = const.standard_cgrav * m / (CO_radius(m_acc, kind) * const.Rsun
                                          * const.clight**2)
    kappa = 0.2 * (1 + X)
    return (4 * const.pi * const.standard_cgrav * m / (kappa * eta * const.clight)
            * const.secyer / const.msol, eta)


def beaming(rate, mdot_edd):
    """King 2008; King et al. 2009."""
    if rate is None:
        return np.nan, 1
    rlo = 10**rate
    if rlo < mdot_edd:
        return rlo, 1
    x = rlo / mdot_edd
    if rlo > 8.5 * mdot_edd:
        b = 73 / x**2
    else:
        b = 1
    return mdot_edd * (1 + np.log(x)) / b, b


# ---------------------------------------------------------------- classification

def infer_star_state(star_mass, surface_h1, center_h1, center_he4, center_c12, log_LH,
                     log_LHe, log_Lnuc, star_CO):
    if star_CO:
        if pd.isna(star_mass) or star_mass <= 0:
            return "massless_remnant"
        light = star_mass <= STATE_WD_STARMASS_UPPER_LIMIT
        matter = star_mass < STATE_NS_STARMASS_LOWER_LIMIT
        for x in (surface_h1, center_h1, center_he4, center_c12):
            if not pd.isna(x) and x > 0:
                matter = True
        if light and matter:
            return "WD"
        if star_mass > STATE_NS_STARMASS_UPPER_LIMIT:
            return "BH"
        return "NS"
    if pd.isna(surface_h1):
        return "undetermined_evolutionary_state"
    if surface_h1 > THRESHOLD_HE_NAKED_ABUNDANCE:
        rich = "H-rich"
    elif round(surface_h1, 10) < round(center_h1, 10):
        rich = "accreted_He"
    else:
        rich = "stripped_He"
    H = log_LH > LOG10_BURNING_THRESHOLD and log_LH - log_Lnuc > REL_LOG10_BURNING_THRESHOLD
    He = log_LHe > LOG10_BURNING_THRESHOLD \
        and log_LHe - log_Lnuc > REL_LOG10_BURNING_THRESHOLD
    if center_h1 > THRESHOLD_CENTRAL_ABUNDANCE:
        burning = "Core_H_burning" if H else "non_burning"
    elif center_he4 > THRESHOLD_CENTRAL_ABUNDANCE:
        burning = "Core_He_burning" if He else ("Shell_H_burning" if H else "non_burning")
    elif center_c12 > THRESHOLD_CENTRAL_ABUNDANCE:
        burning = "Core_He_depleted"
    else:
        burning = "Core_C_depleted"
    return "{}_{}".format(rich, burning)


def mt_case(overflow, rate, rich, burning, dominating_star):
    """No overflow unless the lobe is overfilled or the dominating star transfers mass."""
    if overflow is None or rate is None:
        return 0
    if overflow <= RL_RELATIVE_OVERFLOW_THRESHOLD:
        if not dominating_star:
            return 0
        if rate <= LG_MTRANSFER_RATE_THRESHOLD:
            return 0
    if burning == "non_burning":
        return 8
    if rich == "H-rich":
        return {"Core_H_burning": 1, "Core_He_burning": 2, "Shell_H_burning": 2,
                "Core_He_depleted": 3, "Core_C_depleted": 3}[burning]
    if rich == "stripped_He":
        return {"Core_H_burning": 9, "Core_He_burning": 4, "Shell_H_burning": 9,
                "Core_He_depleted": 5, "Core_C_depleted": 5}[burning]
    return 9


def event_of(binary, one, two, klass, o1, o2, state1, state2, double1, double2, end1, end2):
    """State, event and mass-transfer case from the two overflow flags."""
    case = "None"
    event = None
    if one != 0 and one != 9 and two != 0 and two != 9:
        state = "contact"
        if klass == "unstable_MT":
            if o1 >= o2:
                return state, ("oDoubleCE1" if double2 else "oCE1"), case
            return state, ("oDoubleCE2" if double1 else "oCE2"), case
    elif one == 0 and two == 0:
        state = "detached"
    elif one != 0 and one != 9:
        state = "RLO1"
        case = "case_" + {1: "A", 2: "B", 3: "C", 4: "BA", 5: "BB", 6: "BC",
                          8: "nonburning"}[one] + "1"
        if klass == "unstable_MT":
            return state, "oCE1", case
    elif two != 0 and two != 9:
        state = "RLO2"
        case = "case_" + {1: "A", 2: "B", 3: "C", 4: "BA", 5: "BB", 6: "BC",
                          8: "nonburning"}[two] + "2"
        if klass == "unstable_MT":
            return state, "oCE2", case
    else:
        state = "undefined"
    if end1:
        event = "CC1"
    elif end2:
        event = "CC2"
    return state, event, case


# ------------------------------------------------------------- binding energies

def binding_energy(mass, radius, dm, u, n, factor):
    """Cells above index n: gravity and a fraction of the internal energy."""
    E = 0.0
    for i in range(n):
        E = E - const.standard_cgrav * const.Msun**2 * mass[i] * dm[i] / (
            radius[i] * const.Rsun) + factor * u[i] * dm[i] * const.Msun
    return E


def interpolated(y, x, x_target, top, bot):
    """Straight line through two cells."""
    w = (x_target - x[bot]) / (x[top] - x[bot])
    return y[bot] + w * (y[top] - y[bot])


def recombination(x_mass_fraction_H, y_mass_fraction_He, frac_HII, frac_HeII, frac_HeIII):
    H = x_mass_fraction_H / const.H_weight * 13.598434 * frac_HII
    He = y_mass_fraction_He / const.He_weight * (
        24.587388 * frac_HeII + (54.417765 + 24.587388) * frac_HeIII)
    return (H + He) * const.avo * const.ev2erg


def rotate(axis, angle):
    """Rodrigues' rotation: column j is the image of the unit vector j."""
    n = np.linalg.norm(axis)
    if n == 0:
        raise ValueError
    u = (axis[0] / n, axis[1] / n, axis[2] / n)
    co, si = np.cos(angle), np.sin(angle)
    cross = ((0, -u[2], u[1]), (u[2], 0, -u[0]), (-u[1], u[0], 0))
    rows = []
    for i in range(3):
        rows.append([(co if i == j else 0) + si * cross[i][j] + (1 - co) * u[i] * u[j]
                     for j in range(3)])
    return rows


def inspiral_period(star1_mass, star2_mass, orbital_period, eccentricity):
    return inspiral(star1_mass, star2_mass, orbital_separation_from_period(
        orbital_period, star1_mass, star2_mass), eccentricity)


def eddington_grams(kind, m_acc, surface_h1):
    """The recorded defect: the mass of a white dwarf enters its radius in grams."""
    X = 0.7155 if pd.isna(surface_h1) else surface_h1
    m = m_acc * const.msol
    eta = const.standard_cgrav * m / (CO_radius(m, kind) * const.Rsun * const.clight**2)
    return (4 * const.pi * const.standard_cgrav * m / (0.2 * (1 + X) * eta * const.clight)
            * const.secyer / const.msol, eta)


def lambda_from_profile(mass, radius, dm, u, x, ind, frac, factor, tolerance):
    """Binding-energy parameter, core mass and radius with the core at a composition."""
    M, R = mass[0], radius[0]
    if ind == 0:
        return np.nan, M, R
    if ind == -1:
        E = binding_energy(mass, radius, dm, u, len(mass), factor)
        mc, rc = 0.0, 0.0
    else:
        w = (frac - x[ind - 1]) / (x[ind] - x[ind - 1])
        a = binding_energy(mass, radius, dm, u, ind - 1, factor)
        b = binding_energy(mass, radius, dm, u, ind, factor)
        E = a + w * (b - a)
        mc = mass[ind - 1] + w * (mass[ind] - mass[ind - 1])
        rc = radius[ind - 1] + w * (radius[ind] - radius[ind - 1])
    lam = -const.standard_cgrav * const.Msun**2 * M * (M - mc) / (E * R * const.Rsun)
    if not lam > -tolerance and pd.notna(lam):
        raise ValueError
    return lam, mc, rc


def core_boundary(profile, hydrogen, co_core, frac):
    """First cell from the surface poor in the envelope's and rich in the core's elements."""
    H, He = profile["x_mass_fraction_H"], profile["y_mass_fraction_He"]
    Z = profile["z_mass_fraction_metals"]
    if hydrogen and not co_core:
        env, core = H, He + Z
    else:
        env, core = H + He, Z
    here = (env <= frac) & (core >= 0.1)
    if np.any(here):
        return np.argmax(here)
    return -1


def internal_energy(profile, option, h2, recomb):
    if option == "lambda_from_profile_gravitational":
        return profile["radius"] * 0.0
    if option == "lambda_from_profile_gravitational_plus_internal":
        return profile["energy"] - h2
    return profile["energy"] - h2 - recomb


def h2_recombination(profile):
    return 35999.582894 * const.inversecm2erg / (2.0 * const.H_weight) \
        * profile["x_mass_fraction_H"] * const.avo


def ionised_recombination(H, He, neutral_H, neutral_He, charge_He):
    """One cell: ionised fractions from neutral fractions and mean charge."""
    HI = min(1.0, neutral_H)
    HeI = min(1.0, neutral_He)
    HeII = 2.0 - 2.0 * HeI - max(charge_He, 0.0)
    return recombination(H, He, 1.0 - HI, HeII, 1.0 - HeII - HeI)
