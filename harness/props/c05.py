"""C05 reference times and impact parameter."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Check, agree, info, require
from harness.sutorbit import get, make

RULE = (
    "random orbits with e in [0, 0.999], every omega incl. exact +-pi/2 (also through "
    "sin/cos), b or incl, t0 / t_periastron / neither, and whole numbers of periods in "
    "[-1000, 1000]; non-trivial when e > 0 or b != 0"
)


@st.composite
def case(draw, **kw):
    kw.setdefault("max_planets", 3)
    kw.setdefault("max_ecc", 0.999)
    kw.setdefault("wide", True)
    p = draw(gen.system(period=(0.5, 500.0), **kw))
    if p.get("ecc") is not None and draw(st.integers(0, 3)) == 0:
        p.pop("omega", None)
        s, co = draw(st.sampled_from([(-1.0, 0.0), (1.0, 0.0), (0.0, 1.0), (0.0, -1.0), (-1.0, -0.0)]))
        p["sin_omega"], p["cos_omega"] = s, co
    p = gen.fix_b(p, ref)
    return dict(p=p, k=draw(st.lists(st.integers(-1000, 1000), min_size=1, max_size=3)),
                mode=draw(st.sampled_from(["raw"] * 9 + ["fast"])))


def _diag(x, K, n):
    """x has the squeezed layout of times (n*K) x planets; pick planet i at its own times."""
    x = np.reshape(x, (n, K, n)) if n > 1 else np.reshape(x, (1, K, 1))
    return np.stack([x[i, :, i] for i in range(n)], axis=0)


def transit(c):
    p = c["p"]
    orb = ref.Orbit(p)
    o = make(p)
    n = orb.nplanets[0] if orb.nplanets else 1
    full = lambda x: np.broadcast_to(np.asarray(x, float), (n,))  # noqa: E731
    at = get(lambda: [o.t0, o.t_periastron, o.b, o.r_star, o.incl], "attributes")
    t0, tp, b, R, incl = [full(np.squeeze(x) if np.size(x) == 1 else x) for x in at]
    if p.get("t0") is None and p.get("t_periastron") is None:
        agree(t0, 0 * t0, 0, 0, "default t0")
    if p.get("t0") is not None:
        agree(t0, full(p["t0"]), 0, 0, "t0 as given")
    if p.get("t_periastron") is not None:
        agree(tp, full(p["t_periastron"]), 0, 0, "t_periastron as given")
    if p.get("incl") is not None:
        agree(incl, full(p["incl"]), 0, 0, "incl as given")
    if p.get("b") is not None:
        agree(b, full(p["b"]), 1e-15, 0, "b as given")
    P, a, e = full(orb.P), full(orb.a), full(orb.e)
    k = np.asarray(c["k"], float)
    K = len(k)
    t = (t0[:, None] + k[None, :] * P[:, None]).ravel()
    tq = (tp[:, None] + k[None, :] * P[:, None]).ravel()
    res = get(lambda: list(o.get_relative_position(t)) + list(o.get_relative_position(tq)),
              "positions at the reference times", c["mode"])
    X, Y, Z, X2, Y2, Z2 = [_diag(x, K, n) for x in res]
    amp = (1 + e) ** 2 / (1 - e**2) ** 1.5
    err = ((np.abs(t0)[:, None] + np.abs(tp)[:, None] + (np.abs(k) + 3) * P[:, None])
           * (2 * np.pi / P)[:, None] * 40 * ref.EPS + 1e-13) * amp[:, None]
    M0 = np.broadcast_to(full(orb.M0)[:, None], err.shape)
    if not orb.circ:
        err = err + ref.solver_error(M0, e[:, None])
    tol = a[:, None] * (1 + e)[:, None] * err
    sep = np.hypot(X, Y)
    agree(sep, np.abs(b)[:, None] * R[:, None] + 0 * sep, 0, 2 * tol + 1e-12,
          "projected separation at t0 + k P is |b| r_star")
    si = np.broadcast_to(np.sin(incl)[:, None], Z.shape)
    ok = (Z > 0) | (si * a[:, None] * (1 - e)[:, None] <= tol)
    require(ok, "planet is behind the star at t0")
    # conjunction: along-orbit coordinate x (before the node rotation) vanishes
    Om = full(orb.Om)[:, None]
    agree(np.cos(Om) * X + np.sin(Om) * Y, 0 * X, 0, 2 * tol + 1e-12, "conjunction at t0 + k P")
    r = np.sqrt(X2**2 + Y2**2 + Z2**2)
    # quadratic minimum: the error enters at second order in the angle
    agree(r, (a * (1 - e))[:, None] + 0 * r, 0,
          a[:, None] * (err**2 + 1e-12), "distance at periastron is a(1-e)")
    wz = np.sin(full(orb.w))[:, None] * si * (a * (1 - e))[:, None]
    agree(Z2, wz, 0, 2 * tol + 1e-12, "direction of periastron")
    return info(np.any(e > 0) or np.any(b != 0), "circ" if orb.circ else "ecc",
                "tp given" if p.get("t_periastron") is not None else
                "t0 given" if p.get("t0") is not None else "default epoch",
                "sin/cos" if p.get("sin_omega") is not None else "omega")


def swap(c):
    """The epochs are interchangeable."""
    p = c["p"]
    o = make(p)
    q = {k: v for k, v in p.items() if k not in ("t0", "t_periastron")}
    t0, tp, P = get(lambda: [o.t0, o.t_periastron, o.period], "epochs")
    qa, qb = dict(q, t0=t0), dict(q, t_periastron=tp)
    oa, ob = make(qa), make(qb)
    at = get(lambda: [oa.t0, oa.t_periastron, ob.t0, ob.t_periastron], "epochs")
    tol = 1e-13 * (np.max(np.abs(t0)) + np.max(np.abs(tp)) + np.max(P))
    for g, w, nm in zip(at, [t0, tp, t0, tp], ["t0", "tp from t0", "t0 from tp", "tp"]):
        g, w = np.broadcast_arrays(g, w)
        agree(g, w, 0, tol, nm)
    orb = ref.Orbit(p)
    d, w = np.broadcast_arrays(at[0] - at[1], orb.M0 / orb.n)
    # defined up to a whole period (omega = -pi/2 is half a period away on either side)
    Pb = np.broadcast_to(P, d.shape)
    dd = np.mod(d - w + 0.5 * Pb, Pb) - 0.5 * Pb
    agree(dd, 0 * dd, 0, tol + 1e-12 * np.max(P), "t0 - t_periastron")
    return info(not orb.circ)


CHECKS = [
    Check("transit", case(), transit, 700),
    Check("swap", case(), swap, 400),
]
