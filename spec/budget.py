"""Reference for common envelopes and mergers (never imported, only analysed)."""
import numpy as np
import pandas as pd

import posydon.utils.constants as const
from posydon.binary_evol.flow_chart import (STAR_STATES_CO, STAR_STATES_H_RICH,
                                            STAR_STATES_HE_RICH, STAR_STATES_NOT_CO)
from posydon.binary_evol.singlestar import convert_star_to_massless_remnant
from posydon.utils.common_functions import (calculate_lambda_from_profile,
                                            calculate_Mejected_for_integrated_binding_energy,
                                            check_for_RLO, check_state_of_star,
                                            orbital_period_from_separation,
                                            orbital_separation_from_period,
                                            period_change_stable_MT,
                                            roche_lobe_radius)
from posydon.utils.constants import Zsun


# ------------------------------------------------------------- common envelope

def core(self, star, kind):
    """(lambda, core mass, core radius) of a star with an envelope."""
    opt = self.common_envelope_option_for_lambda
    if opt == "lambda_from_grid_final_values":
        if kind == "CO_core":
            return (star.lambda_CE_pure_He_star_10cent, star.m_core_CE_pure_He_star_10cent,
                    star.r_core_CE_pure_He_star_10cent)
        if self.core_definition_H_fraction == 0.01:
            return star.lambda_CE_1cent, star.m_core_CE_1cent, star.r_core_CE_1cent
        if self.core_definition_H_fraction == 0.1:
            return star.lambda_CE_10cent, star.m_core_CE_10cent, star.r_core_CE_10cent
        return star.lambda_CE_30cent, star.m_core_CE_30cent, star.r_core_CE_30cent
    if opt == "default_lambda" or star.profile is None:
        if kind == "CO_core":
            return (self.common_envelope_lambda_default, star.co_core_mass,
                    star.co_core_radius)
        return (self.common_envelope_lambda_default, star.he_core_mass,
                star.he_core_radius)
    if kind == "CO_core":
        frac = self.core_definition_He_fraction
    else:
        frac = self.core_definition_H_fraction
    return calculate_lambda_from_profile(
        profile=star.profile, donor_star_state=star.state, m1_i=star.mass,
        radius1=10**star.log_R, common_envelope_option_for_lambda=opt,
        core_element_fraction_definition=frac,
        common_envelope_alpha_thermal=self.common_envelope_alpha_thermal,
        tolerance=self.CEE_tolerance_err)


def binding(star, lam, mc):
    if pd.isna(lam):
        return 0.0
    return -(const.standard_cgrav * star.mass * (star.mass - mc) * const.Msun**2
             / (lam * 10**star.log_R * const.Rsun))


def bare(star, kind, mc):
    """Core after the second phase: never heavier than right after the ejection."""
    if kind == "CO_core":
        m, r = star.co_core_mass, star.co_core_radius
    else:
        m, r = star.he_core_mass, star.he_core_radius
    if m > mc:
        m = mc
    return m, r


def strip(star, kind, m, r, one_phase, fH, fHe):
    """The envelope is gone: the star is its core."""
    star.mass = m
    star.log_R = np.log10(r)
    star.he_core_mass = m
    star.he_core_radius = r
    if kind == "CO_core":
        star.co_core_mass = m
        star.co_core_radius = r
        star.surface_h1 = 0.0
        star.surface_he4 = fHe if one_phase else 0.1
        star.log_LH = star.log_LHe = -1e99
    else:
        star.surface_h1 = fH if one_phase else 0.01
        if star.metallicity is None:
            star.surface_he4 = 1 - star.surface_h1 - Zsun
        else:
            star.surface_he4 = 1 - star.surface_h1 - star.metallicity * Zsun
        star.log_LH = -1e99
    star.state = check_state_of_star(star)


def common_envelope(self, binary, donor, comp, kind, ckind, which, double):
    """Alpha-lambda prescription (Webbink 1984)."""
    l1, mc1, rc1 = core(self, donor, kind)
    m1, m2 = donor.mass, comp.mass
    if double:
        l2, mc2, rc2 = core(self, comp, ckind)
    else:
        mc2, rc2 = m2, 10**comp.log_R
    G, Ms = const.standard_cgrav, const.Msun
    eb = binding(donor, l1, mc1)
    if double:
        eb = eb + binding(comp, l2, mc2)
    a_i = orbital_separation_from_period(binary.orbital_period, m1, m2) * const.Rsun
    e_i = -G * m1 * m2 * Ms**2 / (2 * a_i)
    e_f = e_i + eb / self.common_envelope_efficiency
    a = -G * mc1 * mc2 * Ms**2 / (2 * e_f)
    if a < -self.CEE_tolerance_err:
        raise ValueError
    if not double and comp.state not in STAR_STATES_CO:
        rc2 = self.adjust_secondary_radius(comp, binary, mc1, mc2, rc1, rc2, a)
    a = a / const.Rsun
    opt = self.common_envelope_option_after_succ_CEE
    one = opt == "one_phase_variable_core_definition"
    tol = self.CEE_tolerance_err
    if one:
        m1f, r1f, m2f, r2f = mc1, rc1, mc2, rc2
        af = a
        pf = orbital_period_from_separation(a, mc1, mc2)
        merger = check_for_RLO(mc1, rc1, mc2, rc2, a, tol)
    else:
        m1f, r1f = bare(donor, kind, mc1)
        m2f, r2f = mc2, rc2
        if double:
            m2f, r2f = bare(comp, ckind, mc2)
        merger = check_for_RLO(mc1, r1f, mc2, r2f, a, tol)
        pf = orbital_period_from_separation(a, mc1, mc2)
        if opt == "two_phases_stableMT" and not double:
            # the rest of the envelope is transferred and lost from the accretor
            pf = period_change_stable_MT(pf, Mdon_i=mc1, Mdon_f=m1f, Macc_i=mc2,
                                         alpha=0.0, beta=1.0)
        else:
            # ... or lost in a fast wind
            pf = period_change_stable_MT(pf, Mdon_i=mc1, Mdon_f=m1f, Macc_i=mc2,
                                         alpha=1.0, beta=0.0)
            if double:
                pf = period_change_stable_MT(pf, Mdon_i=mc2, Mdon_f=m2f, Macc_i=m1f,
                                             alpha=1.0, beta=0.0)
        af = orbital_separation_from_period(pf, m1f, m2f)
        if not merger:
            merger = check_for_RLO(m1f, r1f, m2f, r2f, af, tol)
    if merger:
        x1, x2 = 0.0, 0.0
        if self.mass_loss_during_CEE_merged:
            x1, x2 = partial_ejection(self, donor, comp, m1, mc1, rc1, m2, mc2, rc2, a_i,
                                      double)
        binary.state = "merged"
        binary.event = "oMerging1" if which == 1 else "oMerging2"
        donor.mass = m1 - x1
        comp.mass = m2 - x2
        if kind == "CO_core":
            donor.he_core_mass = m1 - x1
        if double and ckind == "CO_core":
            comp.he_core_mass = m2 - x2
        return
    binary.separation = af
    binary.orbital_period = pf
    binary.eccentricity = 0.0
    binary.state = "detached"
    if donor.state == "stripped_He_Core_He_depleted":
        binary.event = "CC1" if which == 1 else "CC2"
    else:
        binary.event = None
    fH, fHe = self.core_definition_H_fraction, self.core_definition_He_fraction
    strip(donor, kind, m1f, r1f, one, fH, fHe)
    if double:
        strip(comp, ckind, m2f, r2f, one, fH, fHe)


def partial_ejection(self, donor, comp, m1, mc1, rc1, m2, mc2, rc2, a_i, double):
    """Mass lost before a merger: the orbital energy released until a core fills its
    Roche lobe, times alpha, is spent on unbinding envelope."""
    if donor.profile is None or double and comp.profile is None:
        return 0.0, 0.0
    G, Ms = const.standard_cgrav, const.Msun
    a = const.Rsun * max(rc1 / roche_lobe_radius(mc1, mc2, a_orb=1),
                         rc2 / roche_lobe_radius(mc2, mc1, a_orb=1))
    E = self.common_envelope_efficiency * (G * mc1 * mc2 * Ms**2 / (2 * a)
                                           - G * m1 * m2 * Ms**2 / (2 * a_i))
    e1, e2 = m1 - mc1, m2 - mc2
    w = 1.0
    x2 = 0.0
    if double:
        w = e1 / (e1 + e2)
        x2 = calculate_Mejected_for_integrated_binding_energy(
            comp.profile, E * (1 - w), mc2, rc2, m2, 10**comp.log_R)
    x1 = calculate_Mejected_for_integrated_binding_energy(
        donor.profile, E * w, mc1, rc1, m1, 10**donor.log_R)
    if x1 > e1:
        x1 = e1 - 0.01
    if x2 > e2:
        x2 = e2 - 0.01
    return x1, x2


def no_envelope(self, binary, which):
    """A donor without a core merges with its companion."""
    binary.state = "merged"
    binary.event = "oMerging1" if which == 1 else "oMerging2"


# --------------------------------------------------------------------- mergers

CENTER = ["center_h1", "center_he4", "center_c12", "center_n14", "center_o16",
          "avg_c_in_c_core"]
SURFACE = ["surface_h1", "surface_he4", "surface_c12", "surface_n14", "surface_o16"]
CORES = ["mass", "he_core_mass", "c_core_mass", "o_core_mass", "co_core_mass"]


def mean(A1, M1, A2, M2):
    """Mass-weighted mean of the abundances of two stars."""
    if A1 is None or A2 is None or M1 is None or M2 is None:
        return np.nan
    if not (np.isfinite(A1) and np.isfinite(A2) and np.isfinite(M1) and np.isfinite(M2)):
        return np.nan
    if M1 + M2 == 0:
        return np.nan
    return (A1 * M1 + A2 * M2) / (M1 + M2)


def mass_of(star, weight):
    if weight == "envelope":
        return star.mass - star.he_core_mass
    if weight == "He envelope":
        return star.he_core_mass - star.co_core_mass
    return getattr(star, weight)


def mixture(key, a, wa, b, wb):
    return mean(getattr(a, key), mass_of(a, wa), getattr(b, key), mass_of(b, wb))


def center(key, a, b):
    """Composition at the centre: the densest material sinks; equals mix."""
    if a.co_core_mass == 0 and b.co_core_mass == 0:
        return mixture(key, a, "he_core_mass", b, "he_core_mass")
    if a.co_core_mass > 0 and b.co_core_mass == 0:
        return getattr(a, key)
    if b.co_core_mass > 0 and a.co_core_mass == 0:
        return getattr(b, key)
    return mixture(key, a, "co_core_mass", b, "co_core_mass")


def value(self, key, k1, k2, a, b):
    """Property of the product of star a (kind k1) merging with b (kind k2)."""
    he = ("HeMS", "PostHeMS")
    if key == "mass":
        if k1 == "HMS" and k2 == "HMS":
            return (a.mass + b.mass) * (1 - self.rel_mass_lost_HMS_HMS)
        return a.mass + b.mass
    if k2 == "WD":
        if key in CORES:
            return getattr(a, key) + b.mass
        if key in CENTER:
            if a.co_core_mass == 0:
                return getattr(b, key)
            return mixture(key, a, "co_core_mass", b, "co_core_mass")
        return getattr(a, key)
    if k1 == "HMS" and k2 == "HMS":
        if key in SURFACE or key in CENTER and key != "avg_c_in_c_core":
            return mixture(key, a, "mass", b, "mass")
        if key in CORES:
            return getattr(a, key)
        return np.nan
    if k1 == "HMS" or k2 == "HMS":
        # the evolved star keeps its core and mixes its envelope
        if k1 == "HMS":
            if key in SURFACE:
                return mixture(key, a, "mass", b, "envelope")
            return getattr(b, key)
        if key in SURFACE:
            return mixture(key, a, "envelope", b, "mass")
        return getattr(a, key)
    if key in CORES:
        return getattr(a, key) + getattr(b, key)
    if key in CENTER:
        return center(key, a, b)
    if k1 in he and k2 in he:
        return mixture(key, a, "He envelope", b, "He envelope")
    if k1 in he:
        return getattr(b, key)          # the envelope of the hydrogen-rich star
    if k2 in he:
        return getattr(a, key)
    return mixture(key, a, "envelope", b, "envelope")


def companion_radius(self, comp, binary, matched, mc1, mc2, rc1, rc2, a):
    """Radius of a companion: the one of a single star if it is the only overflowing one."""
    R1 = roche_lobe_radius(mc1, mc2, a / const.Rsun)
    R2 = roche_lobe_radius(mc2, mc1, a / const.Rsun)
    if rc1 - R1 < self.CEE_tolerance_err and rc2 - R2 > self.CEE_tolerance_err \
            and matched:
        return matched(binary.time)["R"]
    return rc2
