"""C03 radial velocities."""
import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Check, LU, U, agree, arr, info, mix, vec
from harness.props.c01 import days
from harness.sutorbit import get, make, squeeze

RULE = (
    "random valid orbits and times, K absent / scalar / per planet, seven velocity units; "
    "non-trivial when the expected radial velocity is not identically zero"
)
UNITS = ["m/s", "km/s", "cm/s", "R_sun/d", "au/yr", "km/h", "mm/s"]


@st.composite
def case(draw, needK):
    p = gen.fix_b(draw(gen.system(wide=True, masses=None if needK else draw(st.sampled_from([True, True, True, None])))), ref)
    orb = ref.Orbit(p)
    c = dict(p=p, tau=draw(gen.times_s(1, 8)), mode=draw(st.sampled_from(["raw"] * 9 + ["fast"])))
    if needK:
        el = mix(U(-100.0, 300.0), 1.0, 0.0)
        c["K"] = draw(vec(el, orb.nplanets[0])) if orb.nplanets and draw(st.booleans()) else draw(el)
        c["unit"] = draw(st.sampled_from([None, None, "km/s"]))
    else:
        c["unit"] = draw(st.sampled_from([None] + UNITS))
    return c


def with_K(c):
    orb = ref.Orbit(c["p"])
    t = days(c["tau"], orb)
    o = make(c["p"])
    K = np.asarray(c["K"], float)
    kw = {} if c["unit"] is None else dict(output_units=u.Unit(c["unit"]))
    got = get(lambda: o.get_radial_velocity(t, K=arr(c["K"]), **kw), "RV with K", c["mode"])
    s, co = ref.anomalies(orb._M(t), orb.e)
    want = K * (orb.cw * co - orb.sw * s + orb.e * orb.cw)
    lay = np.zeros(t.shape + orb.nplanets)
    tol = np.abs(K) * (2 * orb.angle_error(t) + 1e-14) + lay
    agree(got, squeeze(want + lay), 0, squeeze(tol) + 1e-300, "K [cos(w+f) + e cos w]")
    return info(np.any(want != 0), "circ" if orb.circ else "ecc", "vector K" if K.ndim else "scalar K")


def reflex(c):
    orb = ref.Orbit(c["p"])
    t = days(c["tau"], orb)
    o = make(c["p"])
    unit = u.m / u.s if c["unit"] is None else u.Unit(c["unit"])
    kw = {} if c["unit"] is None else dict(output_units=unit)
    conv = (1 * u.R_sun / u.day).to(unit).value
    # a call in the other unit before and after changes nothing
    other = {} if kw else dict(output_units=u.km / u.h)
    co2 = (1 * u.R_sun / u.day).to(other.get("output_units", u.m / u.s)).value
    first, got, last = get(lambda: [o.get_radial_velocity(t, **q) for q in (other, kw, other)],
                           "RV from masses", c["mode"])
    agree(first, last, 1e-14, 0, "the same RV asked twice")
    agree(first / co2, got / conv, 1e-13, 0, "RV in two units")
    want = -conv * orb.body_vel(orb.A_star, t)[2]  # receding star: positive
    # the same from the semi-amplitude
    K = conv * 2 * np.pi * orb.A_star * orb.si / (orb.P * np.sqrt(1 - orb.e**2))
    s, co = ref.anomalies(orb._M(t), orb.e)
    alt = K * (orb.cw * co - orb.sw * s + orb.e * orb.cw)
    lay = np.zeros(t.shape + orb.nplanets)
    Kabs = conv * orb.n * orb.A_star / np.sqrt(1 - orb.e**2)
    tol = squeeze(Kabs * (2 * orb.angle_error(t) + 1e-13) + lay) + 1e-300
    agree(got, squeeze(want + lay), 0, tol, "reflex RV = -dZ_star/dt")
    agree(got, squeeze(alt + lay), 0, tol, "reflex RV = K [cos(w+f) + e cos w]")
    return info(np.any(want != 0), c["unit"] or "default unit",
                f"{orb.nplanets[0] if orb.nplanets else 'scalar'} planets")


def consistency(c):
    """Both call styles of the code itself agree, and the sum over planets is the star's."""
    o = make(c["p"])
    orb = ref.Orbit(c["p"])
    t = days(c["tau"], orb)
    conv = ref.RSUN_DAY_TO_MS
    K = conv * orb.n * orb.A_star * orb.si / np.sqrt(1 - orb.e**2)
    rv, rvK, vz = get(
        lambda: [o.get_radial_velocity(t), o.get_radial_velocity(t, K=K if np.ndim(K) else float(K)),
                 o.get_star_velocity(t)[2]], "RV", c["mode"])
    lay = np.zeros(t.shape + orb.nplanets)
    tol = squeeze(np.abs(conv * orb.n * orb.A_star / np.sqrt(1 - orb.e**2)) * 1e-11 + lay) + 1e-300
    agree(rv, rvK, 0, tol, "RV from masses vs RV from the implied K")
    agree(rv, -conv * vz, 1e-13, 1e-300, "RV = -v_z")
    if orb.nplanets and orb.nplanets[0] > 1 and rv.ndim:
        agree(rv.shape[-1:], orb.nplanets, what="one column per planet")
    return info(np.any(rv != 0))


CHECKS = [
    Check("with_K", case(True), with_K, 600),
    Check("reflex", case(False), reflex, 500),
    Check("consistency", case(False), consistency, 300),
]
