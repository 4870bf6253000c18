"""Reference behaviour of the detached step (never imported, only analysed)."""
import numpy as np
from scipy.optimize import brentq

import posydon.utils.constants as const
from posydon.binary_evol.binarystar import BINARYPROPERTIES
from posydon.binary_evol.singlestar import STARPROPERTIES
from posydon.utils.common_functions import (CO_radius, orbital_period_from_separation,
                                            check_state_of_star, bondi_hoyle,
                                            zero_negative_values)
from posydon.utils.key_library import DEFAULT_TRANSLATION
from posydon.binary_evol.flow_chart import (STAR_STATES_CC,
                                            STAR_STATES_H_RICH_EVOLVABLE,
                                            STAR_STATES_HE_RICH_EVOLVABLE)


# --------------------------------------------------- recorded quantities (units)

def _log(x):
    """log10 of a positive quantity, -99 otherwise."""
    if x > 0:
        return np.log10(x)
    return -99.0


def star_value(key, star, r, omega, t):
    """omega in rad/yr; track columns: Msun, Rsun, Msun Rsun^2, Msun/yr."""
    w = omega / const.secyer                                   # rad/s
    M = r["mass"] * const.msol                                 # g
    if key in ("state", "metallicity", "mass_transfer_case", "event"):
        return [getattr(star, key)] * len(t)
    if key == "surf_avg_omega":
        return zero_negative_values(w, key)
    if key == "surf_avg_omega_div_omega_crit":
        crit = np.sqrt(const.standard_cgrav * M / (r["R"] * const.rsol)**3)
        return zero_negative_values(w / crit, key)
    I = r["inertia"] * const.msol * const.rsol**2              # g cm^2
    if key == "total_moment_of_inertia":
        return zero_negative_values(I, key)
    if key == "log_total_angular_momentum":
        return _log(zero_negative_values(w * I, key))
    if key == "spin":
        return zero_negative_values(const.clight * w * I
                                    / (const.standard_cgrav * M**2), key)
    if key == "lg_mdot" or key == "lg_wind_mdot":
        return _log(np.abs(r["mdot"]))
    if DEFAULT_TRANSLATION[key] in r:
        return r[DEFAULT_TRANSLATION[key]]
    if key == "profile":
        return [None] * len(t)
    return np.ones_like(t) * np.nan


def record_star(self, t, star, which):
    omega = self.res.sol(t)[which]
    r = star.interp1d(t)
    for key in STARPROPERTIES:
        h = np.atleast_1d(star_value(key, star, r, omega, t))
        setattr(star, key, h[-1])
        if len(h) > 1:
            getattr(star, key + "_history").extend(h[:-1])


def record_co(t, star):
    """Compact objects keep their properties."""
    for key in STARPROPERTIES:
        h = np.array([getattr(star, key)] * len(t))
        setattr(star, key, h[-1])
        if len(h) > 1:
            getattr(star, key + "_history").extend(h[:-1])


def binary_value(self, key, t, binary, primary, secondary):
    sol = self.res.sol(t)
    if key in ("event", "mass_transfer_case", "nearest_neighbour_distance", "state",
               "V_sys"):
        return [getattr(binary, key)] * len(t)
    if key == "separation":
        return zero_negative_values(sol[0], key)
    if key == "eccentricity":
        return zero_negative_values(sol[1], key)
    if key == "time":
        return zero_negative_values(t, key)
    if key == "orbital_period":
        return zero_negative_values(
            orbital_period_from_separation(sol[0], primary.interp1d(t)["mass"],
                                           secondary.interp1d(t)["mass"]), key)
    if key == "rl_relative_overflow_1":
        if secondary == binary.star_1:
            return self.evo.ev_rel_rlo1(t, [sol[0], sol[1]])
        return self.evo.ev_rel_rlo2(t, [sol[0], sol[1]])
    if key == "rl_relative_overflow_2":
        if secondary == binary.star_2:
            return self.evo.ev_rel_rlo1(t, [sol[0], sol[1]])
        return self.evo.ev_rel_rlo2(t, [sol[0], sol[1]])
    return np.ones_like(t) * np.nan


def record_binary(self, t, binary, primary, secondary):
    for key in BINARYPROPERTIES:
        h = np.atleast_1d(binary_value(self, key, t, binary, primary, secondary))
        setattr(binary, key, h[-1])
        if len(h) > 1:
            getattr(binary, key + "_history").extend(h[:-1])


def times(self, binary):
    """Output times: multiples of dt after the start, always ending at the end."""
    end = self.res.t[-1]
    if self.dt is not None and self.dt > 0:
        t = np.arange(binary.time, end, self.dt)[1:]
        return np.hstack([t[t < end], end])
    if self.n_o_steps_history is not None and self.n_o_steps_history > 0:
        step = (end - binary.time) / self.n_o_steps_history
    else:
        return np.array([end])
    t = np.arange(binary.time, end + step / 2, step)[1:]
    if t[-1] < end:
        t = np.hstack([t, end])
    return t


# -------------------------------------------------------- the end of the step

def detached(self, binary, primary, secondary, only_CO):
    """The first event met decides the state and event of the binary."""
    primary.t_max = primary.interp1d.t_max
    secondary.t_max = secondary.interp1d.t_max
    primary.t_offset = binary.time - primary.interp1d.t0
    secondary.t_offset = binary.time - secondary.interp1d.t0
    primary.interp1d.offset = primary.t_offset
    secondary.interp1d.offset = secondary.t_offset
    self.max_time = secondary.interp1d.max_time
    y = [binary.separation, binary.eccentricity]
    if not only_CO:
        if self.evo.ev_rlo1(binary.time, y) >= 0 or self.evo.ev_rlo2(binary.time, y) >= 0:
            binary.state = "initial_RLOF"
            return
    if not self.max_time - binary.time > 0:
        raise ValueError
    self.res = self.solve_ODEs(binary, primary, secondary)
    if self.res.status == -1:
        return
    t = self.get_time_after_evo(binary)
    self.update_after_evo(t, binary, primary, secondary)
    self.update_co_stars(t, primary, secondary)
    if not secondary.co:
        secondary.state = check_state_of_star(secondary, star_CO=False)
    if primary.state == "massless_remnant" or (primary.co and secondary.co):
        pass
    elif primary.co:
        mdot = np.atleast_1d(bondi_hoyle(binary, primary, secondary,
                                         slice(-len(t), None), wind_disk_criteria=True,
                                         RNG=self.RNG, scheme="Kudritzki+2000"))
        primary.lg_mdot = np.log10(mdot.item(-1))
    else:
        primary.state = check_state_of_star(primary, star_CO=False)
    if primary.co and secondary.co:
        return
    ev = self.res.t_events
    if ev[0] or ev[1]:
        # conservation of angular momentum or circularisation at periastron
        e = self.res.y[1][-1]
        if self.RLO_orbit_at_orbit_with_same_am:
            f = 1 - e**2
        else:
            f = 1 - e
        binary.separation = binary.separation * f
        binary.orbital_period = binary.orbital_period * f**1.5
        if not (np.abs(binary.orbital_period - orbital_period_from_separation(
                binary.separation, secondary.mass, primary.mass))
                / binary.orbital_period < 1e-2):
            raise AssertionError
        binary.eccentricity = 0
        donor = secondary if ev[0] else primary
        if donor == binary.star_1:
            binary.state, binary.event = "RLO1", "oRLO1"
        else:
            binary.state, binary.event = "RLO2", "oRLO2"
        if "step_HMS_HMS_RLO" not in binary.properties.all_step_names:
            s1, s2 = binary.star_1.state, binary.star_2.state
            h1, h2 = (s1 in STAR_STATES_H_RICH_EVOLVABLE,
                      s2 in STAR_STATES_H_RICH_EVOLVABLE)
            if (h1 and h2 or h1 and s2 in STAR_STATES_HE_RICH_EVOLVABLE
                    or h2 and s1 in STAR_STATES_HE_RICH_EVOLVABLE):
                raise ValueError
    elif ev[2]:
        binary.event = "CC1" if secondary == binary.star_1 else "CC2"
        self.track_matcher.get_star_final_values(secondary)
        self.track_matcher.get_star_profile(secondary)
        if not primary.co and primary.state in STAR_STATES_CC:
            if primary.t_max + primary.t_offset == secondary.t_max + secondary.t_offset:
                self.track_matcher.get_star_final_values(primary)
                self.track_matcher.get_star_profile(primary)
            if primary.mass != secondary.mass:
                raise ValueError
    elif ev[3]:
        binary.event = "CC2" if secondary == binary.star_1 else "CC1"
        self.track_matcher.get_star_final_values(primary)
        self.track_matcher.get_star_profile(primary)
    elif binary.properties.max_simulation_time - binary.time < 0:
        binary.event = "MaxTime_exceeded"
    else:
        binary.event = "maxtime"


# ------------------------------------------------- inspiral of compact objects

def inspiral_unit(binary, primary, secondary):
    """Time unit of the scaled inspiral equations [yr]."""
    m1, m2 = primary.mass * const.msol, secondary.mass * const.msol
    a0 = binary.separation * const.Rsun
    return (5 / 64 * const.clight**5 * a0**4
            / (const.standard_cgrav**3 * m1 * m2 * (m1 + m2)) / const.secyer)


def inspiral_start(binary, primary, secondary):
    """(end, ln e, tau, spins) of the integration in s = -ln(a/a0)."""
    contact = (CO_radius(primary.mass, primary.state)
               + CO_radius(secondary.mass, secondary.state)) / binary.separation
    return (0., -np.log(contact), np.log(binary.eccentricity), 0., secondary.omega0,
            primary.omega0)


def inspiral_event(binary, primary, secondary, y):
    """Zero when the maximum simulation time is reached."""
    tmax = binary.properties.max_simulation_time - binary.time
    return y[1] - tmax / inspiral_unit(binary, primary, secondary)


def inspiral_result(binary, primary, secondary, res):
    """(status, separation, eccentricity, time) from the scaled solution."""
    status = res.status
    if res.status == 0:
        status = 1          # reached contact
    elif res.status == 1:
        status = 0          # stopped by the maximum time
    return (status, np.exp(-res.t) * binary.separation, np.exp(res.y[0]),
            binary.time + res.y[1] * inspiral_unit(binary, primary, secondary))


def inspiral_dense(binary, primary, secondary, res):
    return (res.sol, binary.separation, inspiral_unit(binary, primary, secondary),
            binary.time, res.t[0], res.t[-1])


def dense_point(obj, a0, s_lo, s_hi, tau):
    """Separation, eccentricity and spins at one scaled time."""
    lo, hi = obj.sol(s_lo)[1], obj.sol(s_hi)[1]
    eps = 1e4 * np.finfo(float).eps * max(1., abs(lo), abs(hi))
    if abs(lo - tau) <= eps:
        s = s_lo
    elif abs(hi - tau) <= eps:
        s = s_hi
    else:
        s = brentq(lambda x: obj.sol(x)[1] - tau, s_lo, s_hi, xtol=1e-14, rtol=1e-14)
    r = obj.sol(s)
    return a0 * np.exp(-s), np.exp(r[0]), r[2], r[3]


def inspiral_end(self, binary):
    """Status 1: contact; 0: ran out of time; -1: failed."""
    binary.V_sys = binary.V_sys_history[-1]
    if self.res.status == 1:
        binary.eccentricity = 0.0
        binary.state, binary.event = "contact", "CO_contact"
    elif self.res.status != -1:
        binary.time = self.max_time
        binary.eccentricity = self.res.y[1][-1]
        binary.state, binary.event = "detached", "maxtime"
