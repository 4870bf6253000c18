"""Reference densities, samplers and population weights.

x is one element of the arrays the functions are given; U is a uniform draw of (0, 1).
"""
import numpy as np
from scipy.integrate import dblquad, quad

from posydon.popsyn.distributions import FlatMassRatio, PowerLawMassRatio, PowerLawPeriod
from posydon.popsyn.independent_sample import generate_independent_samples
from posydon.popsyn.norm_pop import get_mean_mass, get_pdf
from posydon.utils.common_functions import orbital_separation_from_period


def inverse(x, y):
    """A draw by inversion of the cumulative density y tabulated at x."""


def reject(lo, hi, pdf):
    """A draw between lo and hi by rejection."""


def truncated(x, low, high, mean, sigma):
    """Density of the truncated normal distribution."""


def truncated_draw(low, high, mean, sigma):
    """A draw of it."""


def density(shape, x, lo, hi, inside):
    return np.where(inside, shape(x) / quad(shape, lo, hi)[0], 0)


# ---------------------------------------------------------------- mass ratios

def FlatMassRatio_pdf(q, q_min, q_max):
    return np.where((q > q_min) & (q <= q_max), 1 / (q_max - q_min), 0)


def FlatMassRatio_rvs(U, q_min, q_max):
    return q_min + (q_max - q_min) * U


def PowerLawMassRatio_pdf(q, alpha, q_min, q_max):
    return density(lambda y: y**alpha, q, q_min, q_max, (q > q_min) & (q <= q_max))


def PowerLawMassRatio_rvs(U, alpha, q_min, q_max):
    g = np.linspace(q_min, q_max)
    return inverse(g, g**alpha)


# -------------------------------------------------------------------- periods

def sana_high(logp, p_min, p_max):
    """Flat up to log P = 0.15, then a power law; density in log P."""
    beta = 1 - 0.55
    A = 0.15**-0.55 * (0.15 - np.log10(p_min))
    B = (np.log10(p_max)**beta - 0.15**beta) / beta
    if np.log10(p_min) <= logp and logp < 0.15:
        return 0.15**-0.55 / (A + B)
    if 0.15 <= logp and logp <= np.log10(p_max):
        return logp**-0.55 / (A + B)
    return 0.0


def Sana12Period_pdf(p, m1, p_min, p_max):
    if not (p >= p_min and p <= p_max):
        return 0.0
    if m1 <= 15:
        return 1 / (np.log10(p_max) - np.log10(p_min))
    shape = lambda y: sana_high(y, p_min, p_max)
    return shape(np.log10(p)) / quad(shape, np.log10(p_min), np.log10(p_max))[0]


def Sana12Period_rvs(U, m1, p_min, p_max):
    if m1 <= 15:
        return 10**(np.log10(p_min) + (np.log10(p_max) - np.log10(p_min)) * U)
    return 10**reject(np.log10(p_min), np.log10(p_max), lambda y: sana_high(y, p_min, p_max))


def power_law(logp, slope, p_min, p_max):
    p = 10**logp
    return np.where((p >= p_min) & (p <= p_max), p**slope, 0)


def PowerLawPeriod_pdf(p, slope, p_min, p_max):
    shape = lambda y: power_law(y, slope, p_min, p_max)
    return density(lambda y: power_law(y, slope, p_min, p_max), np.log10(p),
                   np.log10(p_min), np.log10(p_max), (p > 0) & (p >= p_min) & (p <= p_max))


def PowerLawPeriod_rvs(U, slope, p_min, p_max):
    g = np.linspace(np.log10(p_min), np.log10(p_max))
    return 10**inverse(g, power_law(g, slope, p_min, p_max))


# ---------------------------------------------------------------- separations

def LogUniform_pdf(x, min, max):
    return np.where((x > 0) & (x >= min) & (x <= max),
                    1 / (np.log10(max) - np.log10(min)) / x, 0)


def LogUniform_rvs(U, min, max):
    return 10**(np.log10(min) + (np.log10(max) - np.log10(min)) * U)


def LogNormalSeparation_pdf(a, mean, sigma, min, max):
    low, high = (np.log10(min) - mean) / sigma, (np.log10(max) - mean) / sigma
    return np.where((a > 0) & (a >= min) & (a <= max),
                    truncated(np.log10(a), low, high, mean, sigma) / (a * np.log(10)), 0)


def LogNormalSeparation_rvs(U, mean, sigma, min, max):
    low, high = (np.log10(min) - mean) / sigma, (np.log10(max) - mean) / sigma
    return 10**truncated_draw(low, high, mean, sigma)


# -------------------------------------------------------------- eccentricities

def ThermalEccentricity_pdf(e, e_min, e_max):
    return np.where((e >= e_min) & (e <= e_max), 2 * e / (e_max**2 - e_min**2), 0)


def ThermalEccentricity_rvs(U, e_min, e_max):
    return np.sqrt(e_min**2 + U * (e_max**2 - e_min**2))


def UniformEccentricity_pdf(e, e_min, e_max):
    return np.where((e >= e_min) & (e <= e_max), 1 / (e_max - e_min), 0)


def UniformEccentricity_rvs(U, e_min, e_max):
    return e_min + (e_max - e_min) * U


def ZeroEccentricity_pdf(e):
    return np.where(e == 0, 1.0, 0.0)


def ZeroEccentricity_rvs(U):
    return 0


# ------------------------------------------------------ initial mass functions

def Salpeter_pdf(m, alpha, m_min, m_max):
    return density(lambda y: y**-alpha, m, m_min, m_max, (m >= m_min) & (m <= m_max))


def Salpeter_rvs(U, alpha, m_min, m_max):
    k = 1 - alpha
    return (m_min**k + U * (m_max**k - m_min**k))**(1 / k)


def Kroupa1993_pdf(m, alpha, m_min, m_max):
    return density(lambda y: y**-alpha, m, m_min, m_max, (m >= m_min) & (m <= m_max))


def Kroupa1993_rvs(U, alpha, m_min, m_max):
    k = 1 - alpha
    return (m_min**k + U * (m_max**k - m_min**k))**(1 / k)


def kroupa(m, alpha1, alpha2, alpha3, m1break, m2break, m_min):
    """Three power laws that join at the two breaks."""
    if m < m1break:
        return (m / m_min)**-alpha1
    at1 = (m1break / m_min)**-alpha1
    if m < m2break:
        return at1 * (m / m1break)**-alpha2
    return at1 * (m2break / m1break)**-alpha2 * (m / m2break)**-alpha3


def Kroupa2001_pdf(m, alpha1, alpha2, alpha3, m1break, m2break, m_min, m_max):
    return density(lambda y: kroupa(y, alpha1, alpha2, alpha3, m1break, m2break, m_min),
                   m, m_min, m_max, (m >= m_min) & (m <= m_max))


def Kroupa2001_rvs(U, alpha1, alpha2, alpha3, m1break, m2break, m_min, m_max):
    g = np.linspace(m_min, m_max)
    return inverse(g, kroupa(g, alpha1, alpha2, alpha3, m1break, m2break, m_min))


def chabrier(m, m_c, sigma, alpha, m_break):
    """Log-normal below the break, continued by a power law."""
    def lognormal(y):
        return np.exp(-(np.log10(y) - np.log10(m_c))**2 / (2 * sigma**2)) / (
            y * np.sqrt(2 * np.pi) * sigma)
    if m < m_break:
        return lognormal(m)
    return lognormal(m_break) * (m / m_break)**-alpha


def Chabrier2003_pdf(m, m_c, sigma, alpha, m_break, m_min, m_max):
    return density(lambda y: chabrier(y, m_c, sigma, alpha, m_break), m, m_min, m_max,
                   (m >= m_min) & (m <= m_max))


def Chabrier2003_rvs(U, m_c, sigma, alpha, m_break, m_min, m_max):
    g = np.linspace(m_min, m_max)
    return inverse(g, chabrier(g, m_c, sigma, alpha, m_break))


# --------------------------------------------------------------------- weights

def sample(m1, q, orbit, ecc, U, fb):
    """One star or binary out of independent draws."""
    single = U > fb
    return (np.where(single, np.nan, orbit), np.where(single, np.nan, ecc), m1,
            np.where(single, np.nan, m1 * q))


def joint(imf, ratio, orbit, fb, m1, q, P, binary, mass_only, separation, by_mass):
    """Density of a star or binary: binarity, primary mass, mass ratio, log period."""
    if not binary:
        return (1 - fb) * imf.pdf(m1)
    r = fb * imf.pdf(m1) * ratio.pdf(q)
    if mass_only:
        return r
    if separation:
        a = orbital_separation_from_period(P, m1, m1 * q)
        return r * orbit.pdf(a) * a * 2 / 3
    if by_mass:
        return r * orbit.pdf(P, m1)
    return r * orbit.pdf(P)


def mean_mass(imf, ratio, fb, m_min, m_max, low, high):
    """Mean mass of a star or binary; low and high limit the mass ratio."""
    single = quad(lambda m: m * (1 - fb) * imf.pdf(m), m_min, m_max)[0]
    binary = dblquad(lambda q, m: (m + m * q) * fb * imf.pdf(m) * ratio(m).pdf(q),
                     m_min, m_max, low, high)[0]
    return single + binary


def mean_mass_secondary(imf, fb, m_min, m_max, s_min, s_max):
    low, high = lambda m: np.maximum(s_min / m, 0), lambda m: np.minimum(s_max / m, 1)
    return mean_mass(imf, lambda m: FlatMassRatio(low(m), high(m)), fb, m_min, m_max,
                     low, high)


def mean_mass_ratio(imf, ratio, fb, m_min, m_max, q_min, q_max):
    return mean_mass(imf, lambda m: ratio, fb, m_min, m_max, q_min, q_max)


def pdf_stub(kwargs, mass_pdf=False):
    return lambda m1, q=0, P=0, binary=False: opaque_density(kwargs, mass_pdf, m1, q, P, binary)


def opaque_density(kwargs, mass_pdf, m1, q, P, binary):
    """Joint density."""


def mean_stub(params):
    """Mean mass."""


def weight(data, M_sim, simulation, population):
    m1, q = data["S1_mass_i"], data["S2_mass_i"] / data["S1_mass_i"]
    P, binary = data["orbital_period_i"], data["state_i"] != "initially_single_star"
    w = (pdf_stub(population)(m1, q, P, binary) / pdf_stub(simulation)(m1, q, P, binary)
         * mean_stub(simulation) / mean_stub(population) / M_sim)
    return 0 if np.isnan(w) or np.isinf(w) else w


# Target populations that are not sampled.

def power_law_period(slope, p_min, p_max):
    return PowerLawPeriod(slope=slope, p_min=p_min, p_max=p_max)


def power_law_ratio(alpha, q_min, q_max):
    return PowerLawMassRatio(alpha=alpha, q_min=q_min, q_max=q_max)


def flat_ratio(q_min, q_max):
    return FlatMassRatio(q_min=q_min, q_max=q_max)


# Drivers: functions of the repository on one star or binary.

def density_of(kwargs, m1, q, P, binary, mass_only):
    return get_pdf(kwargs, mass_only)(m1, q, P, binary)


def mean_mass_of(kwargs):
    return get_mean_mass(kwargs)


def sample_of(orbital_scheme, primary_mass_scheme, secondary_mass_scheme,
              orbital_period_scheme, orbital_separation_scheme, binary_fraction_scheme,
              primary_mass_min, primary_mass_max, secondary_mass_min, secondary_mass_max,
              orbital_period_min, orbital_period_max, orbital_separation_min,
              orbital_separation_max, binary_fraction_const, RNG):
    return generate_independent_samples(
        orbital_scheme=orbital_scheme, primary_mass_scheme=primary_mass_scheme,
        secondary_mass_scheme=secondary_mass_scheme,
        orbital_period_scheme=orbital_period_scheme,
        orbital_separation_scheme=orbital_separation_scheme,
        binary_fraction_scheme=binary_fraction_scheme, primary_mass_min=primary_mass_min,
        primary_mass_max=primary_mass_max, secondary_mass_min=secondary_mass_min,
        secondary_mass_max=secondary_mass_max, orbital_period_min=orbital_period_min,
        orbital_period_max=orbital_period_max, orbital_separation_min=orbital_separation_min,
        orbital_separation_max=orbital_separation_max,
        binary_fraction_const=binary_fraction_const, number_of_binaries=1, RNG=RNG,
        eccentricity_scheme="zero")
