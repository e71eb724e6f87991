"""C19 batching planets and times never changes a value."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import (Check, LU, SkipCase, U, Violation, agree, arr, info, maybe, mix, require,
                          sut, vec)
from harness.env import xo
from harness.props import c10, c11
from harness.sutorbit import get, make, make_ttv, out_shape

RULE = (
    "random Keplerian, TTV and simple orbits with 1-4 planets, each parameter scalar or per planet "
    "in every mix, scalar/vector/matrix times; every public method evaluated batched, one planet at "
    "a time, one time at a time, permuted and with scalars written out per planet; non-trivial when "
    "there is more than one planet or more than one time"
)
ASSUMPTIONS = [
    "two evaluations of the same formula agree to 1e-9 of the scale (times near the periastron of "
    "e = 0.95 amplify rounding)",
]
METHODS = ["relative_position", "planet_position", "star_position", "relative_velocity",
           "planet_velocity", "star_velocity", "relative_acceleration", "planet_acceleration",
           "star_acceleration", "relative_angles", "radial_velocity"]
ATTRS = ["period", "a", "t0", "t_periastron", "incl", "b", "rho_star", "m_planet"]


def _pick(v, i):
    return v[i] if isinstance(v, list) else v


def restrict(p, i):
    return {k: _pick(v, i) for k, v in p.items()}


def permute(p, order):
    return {k: [v[i] for i in order] if isinstance(v, list) else v for k, v in p.items()}


def spell_out(p, n):
    """Scalars written out per planet (the stellar parameters stay scalars)."""
    return {k: v if k in ("r_star", "m_star", "rho_star") or isinstance(v, list) else [v] * n
            for k, v in p.items()}


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["kepler", "kepler", "kepler", "ttv", "simple"]))
    n = None
    if kind == "kepler":
        p = gen.fix_b(draw(gen.system(max_planets=4, scalar=draw(st.integers(0, 4)) == 0)), ref)
        try:
            n = ref.Orbit(p).nplanets
        except ValueError:
            n = ()
        c = dict(p=p)
        n = n[0] if n else 1
    elif kind == "ttv":
        c = gen.ttv_fix_b(draw(gen.ttv_system(max_planets=3)), ref)
        n = len(c.get("ttvs") or c["transit_times"])
    else:
        s = draw(c10.simple_case())
        c = dict(p={k: s[k] for k in ("period", "duration", "t0", "b", "r_star", "ror")})
        n = len(s["period"]) if isinstance(s["period"], list) else 1
    shape = draw(st.sampled_from([(), (1,), (3,), (5,), (2, 3), (3, 1), (1, 4), (2, 3, 2), (1, 2, 1)]))
    c["shape"] = list(shape)
    m = int(np.prod(shape, dtype=int))
    c["t"] = draw(vec(mix(U(-30.0, 60.0), 0.0, 500.0), m))
    c["tint"] = kind != "ttv" and draw(st.integers(0, 9)) == 0
    c["perm"] = draw(st.permutations(list(range(n))))
    c["tperm"] = draw(st.permutations(list(range(m))))
    c["method"] = draw(st.sampled_from(METHODS)) if kind != "simple" else draw(
        st.sampled_from(["relative_position", "planet_position"]))
    c["parallax"] = draw(maybe(LU(1e-3, 1.0), 0.6)) if kind != "simple" else None
    c["delay"] = kind != "simple" and draw(st.integers(0, 2)) == 0
    c["K"] = draw(st.sampled_from(["none", "scalar", "vector"]))
    c["Kv"] = draw(vec(LU(0.1, 1000.0), n))
    return dict(c, kind=kind, n=n)


def build(c, p=None, idx=None):
    p = c["p"] if p is None else p
    if c["kind"] == "kepler":
        return make(p)
    if c["kind"] == "simple":
        with sut("SimpleTransitOrbit"):
            return xo.orbits.SimpleTransitOrbit(**{k: arr(v) for k, v in p.items()})
    q = dict(c, p=p)
    if idx is not None:
        for k in ("ttvs", "transit_times", "transit_inds"):
            if c.get(k) is not None:
                q[k] = [c[k][i] for i in idx]
        d = c.get("delta_log_period")
        if isinstance(d, list):
            q["delta_log_period"] = [d[i] for i in idx]
    return make_ttv(q)


def single(c, i):
    p = restrict(c["p"], i)
    if c["kind"] == "ttv":
        p = {k: [v] if k in ("period", "t0") else v for k, v in p.items()}
        return build(c, p, [i])
    return build(c, p)


def call(c, o, t, idx):
    m = c["method"]
    kw = {}
    if m.endswith("position") or m.endswith("angles"):
        if c["parallax"] is not None:
            kw["parallax"] = c["parallax"]
        if c["delay"]:
            kw["light_delay"] = True
    if m == "radial_velocity" and c["K"] != "none":
        kw["K"] = c["Kv"][0] if c["K"] == "scalar" else (
            c["Kv"][idx] if np.ndim(idx) == 0 else np.array(c["Kv"])[list(idx)])
    res = getattr(o, "get_" + m)(t, **kw)
    return list(res) if isinstance(res, (tuple, list)) else [res]


def _evaluate(c, pairs):
    """[(orbit, t, idx)] -> list of lists of arrays."""
    outs, ks = [], []
    with sut("get_" + c["method"]):
        for o, t, idx in pairs:
            r = call(c, o, t, idx)
            outs += r
            ks.append(len(r))
    vals = get(outs, "get_" + c["method"])
    res, j = [], 0
    for k in ks:
        res.append(vals[j:j + k])
        j += k
    return res


def _times(c):
    t = np.reshape(np.array(c["t"], float), c["shape"])
    if c["tint"]:
        t = np.round(t).astype(int)
    return t


def _circular(c):
    """Unit vectors for the position angle (it has a branch cut)."""
    return c["method"] == "relative_angles"


def _cmp(c, got, want, scale, what):
    for q, (g, w) in enumerate(zip(got, want)):
        if g.shape != w.shape:
            raise Violation(f"{what}: shape {g.shape}, expected {w.shape}")
        if _circular(c) and q == 1:
            # the angle has no meaning where the separation vanishes
            s = np.maximum(want[0] / scale[0], 1e-12)
            d = np.abs(np.exp(1j * g) - np.exp(1j * w)) * s
            require(d < 1e-7, f"{what}: position angle differs by {np.max(d):.3g}")
        else:
            agree(g, w, 0, 1e-9 * scale[q], what)


def planets(c):
    n, t = c["n"], _times(c)
    o = build(c)
    perm = c["perm"]
    po = build(c, permute(c["p"], perm), perm)
    so = build(c, spell_out(c["p"], n) if isinstance(c["p"].get("period", c["p"].get("a")), list)
               or c["kind"] == "ttv" else c["p"])
    pairs = [(o, t, list(range(n)) if n > 1 else 0), (po, t, perm if n > 1 else 0),
             (so, t, list(range(n)) if n > 1 else 0)]
    pairs += [(single(c, i), t, i) for i in range(n)]
    res = _evaluate(c, pairs)
    batch, permuted, spelled, singles = res[0], res[1], res[2], res[3:]
    sh = tuple(k for k in tuple(c["shape"]) + (n,) if k != 1)
    full = tuple(c["shape"]) + (n,)
    want, wantp, scale = [], [], []
    for q in range(len(batch)):
        for i in range(n):
            s1 = tuple(k for k in c["shape"] if k != 1)
            if singles[i][q].shape != s1:
                raise Violation(f"one planet: shape {singles[i][q].shape}, expected {s1}")
        w = np.stack([np.reshape(singles[i][q], c["shape"]) for i in range(n)], axis=-1)
        require(np.all(np.isfinite(w)), f"get_{c['method']}: non-finite values")
        want.append(w.reshape(sh))
        wantp.append(w[..., perm].reshape(sh))
        assert w.shape == full
    vs = want[:1] if _circular(c) else want
    # the largest component of each planet sets its scale
    big = np.max([np.max(np.abs(v.reshape((-1, n))), axis=0) for v in vs], axis=0) + 1e-300
    scale = [np.broadcast_to(big, full).reshape(sh)] * len(batch)
    scalep = [np.broadcast_to(big[perm], full).reshape(sh)] * len(batch)
    _cmp(c, batch, want, scale, "all planets at once against one at a time")
    _cmp(c, permuted, wantp, scalep, "planets permuted")
    _cmp(c, spelled, want, scale, "scalar parameters written out per planet")
    return info(n > 1, c["kind"], c["method"], f"{n} planets", f"t {tuple(c['shape'])}")


def times(c):
    n, t = c["n"], _times(c)
    if t.size < 2 or c["kind"] == "ttv" and t.size > 4:
        t = np.reshape(t.ravel()[:4], (-1,))
    o = build(c)
    flat = t.ravel()
    tp = flat[[k for k in c["tperm"] if k < flat.size]]
    idx = list(range(n)) if n > 1 else 0
    pairs = [(o, t, idx), (o, tp, idx)] + [(o, flat[k], idx) for k in range(flat.size)]
    res = _evaluate(c, pairs)
    sh = tuple(k for k in t.shape + (n,) if k != 1)
    shp = tuple(k for k in tp.shape + (n,) if k != 1)
    want, wantp = [], []
    order = [k for k in c["tperm"] if k < flat.size]
    for q in range(len(res[0])):
        for r in res[2:]:
            if r[q].shape != ((n,) if n > 1 else ()):
                raise Violation(f"scalar time: shape {r[q].shape} with {n} planets")
        w = np.stack([np.reshape(r[q], (n,)) for r in res[2:]], axis=0)
        want.append(w.reshape(t.shape + (n,)).reshape(sh))
        wantp.append(w[order].reshape(shp))
    vs = want[:1] if _circular(c) else want
    big = max([float(np.max(np.abs(v))) for v in vs if v.size] + [1e-300])
    scale = [big] * len(want)
    _cmp(c, res[0], want, scale, "all times at once against one at a time")
    _cmp(c, res[1], wantp, scale, "times permuted")
    return info(flat.size > 1, c["kind"], c["method"], f"t {t.shape}")


def attributes(c):
    """Orbit attributes are computed per planet too."""
    n = c["n"]
    if c["kind"] == "simple":
        raise SkipCase()
    o = build(c)
    names = [x for x in ATTRS if not (c["kind"] == "ttv" and x == "t_periastron")]
    vals = get([getattr(o, k) for k in names], "attributes")
    ones = [get([getattr(single(c, i), k) for k in names], "attributes") for i in range(n)]
    for q, k in enumerate(names):
        want = np.array([np.squeeze(x[q]) for x in ones])
        got = np.squeeze(vals[q])
        require(got.ndim == 0 or got.shape == (n,) or n == 1, f"{k}: shape {got.shape}")
        atol = 1e-9
        agree(np.broadcast_to(got, (n,)), want, 1e-12, atol, k)
    return info(n > 1, c["kind"])


# ------------------------------------------------------------- light curves, in_transit


@st.composite
def lc_case(draw):
    c = draw(c11.case())
    c["which"] = draw(st.sampled_from(["on", "off"]))
    return c


def _restrict_lc(c, i):
    d = dict(c)
    if c["kind"] == "simple":
        for k in ("period", "duration", "t0", "b", "ror"):
            d[k] = _pick(c[k], i)
        with sut("SimpleTransitOrbit"):
            return xo.orbits.SimpleTransitOrbit(**{
                k: arr(d[k]) for k in ("period", "duration", "t0", "b", "r_star", "ror")})
    return single(dict(kind=c["kind"], p=c["p"], **{k: c[k] for k in (
        "ttvs", "transit_times", "transit_inds", "delta_log_period") if k in c}), i)


def light_curve(c):
    o, t, texp, r, n, D, P = c11.setup(c)
    if np.any(D > 0.35 * P):
        raise SkipCase()
    lc = xo.LimbDarkLightCurve(*c["u"])
    kw = {} if texp is None else dict(texp=texp, oversample=c["oversample"], order=c["order"])
    kw["use_in_transit"] = c["which"] == "on"
    tx = {} if texp is None else dict(texp=texp)
    ones = [_restrict_lc(c, i) for i in range(n)]
    scalar_r = n > 1 and np.ptp(r) == 0
    j = len(t) // 2
    kw1 = dict(kw)
    tx1 = dict(tx)
    if np.ndim(texp):
        kw1["texp"] = tx1["texp"] = texp[j:j + 1]

    def outs():
        a = [lc.get_light_curve(orbit=o, r=r, t=t, **kw)]
        a.append(lc.get_light_curve(orbit=o, r=r[0] if scalar_r else r, t=t, **kw)
                 if not scalar_r or c["kind"] == "never" else a[0])
        a += [lc.get_light_curve(orbit=q, r=r[i], t=t, **kw) for i, q in enumerate(ones)]
        a.append(lc.get_light_curve(orbit=o, r=r, t=t[j:j + 1], **kw1))
        a.append(o.in_transit(t, r=r, **tx))
        a += [q.in_transit(t, r=r[i], **tx) for i, q in enumerate(ones)]
        a.append(o.in_transit(t[j:j + 1], r=r, **tx1))
        return a

    v = get(outs, "light curves")
    batch, cols, one_t = v[0], v[2:2 + n], v[2 + n]
    idx, sel, idx1 = v[3 + n], v[4 + n:4 + 2 * n], v[4 + 2 * n]
    require(batch.shape == (len(t), n), f"shape {batch.shape}, expected {(len(t), n)}")
    for i in range(n):
        require(cols[i].shape == (len(t), 1), f"one planet: shape {cols[i].shape}")
        agree(batch[:, i], cols[i][:, 0], 0, 1e-9, f"light curve of planet {i} alone")
    agree(one_t, batch[j:j + 1], 0, 1e-9, "one time alone")
    # selections: the union over the planets, up to times on a contact
    union = set().union(*[set(s.tolist()) for s in sel])
    lost = any(len(s) == len(t) for s in sel) or len(idx) == len(t)
    dlt = union ^ set(idx.tolist())
    if dlt and not lost:
        eps = 1e-9 * np.min(D) + 1e-13 * np.max(np.abs(t))
        hit = []
        for k in sorted(dlt):
            near = [set(get(lambda: q.in_transit(t[[k]] + s * eps, r=r[i], **(
                {} if texp is None else dict(texp=texp if np.ndim(texp) == 0 else texp[[k]]))),
                "in_transit").tolist()) for i, q in enumerate(ones) for s in (-1, 1)]
            if len({tuple(sorted(x)) for x in near}) == 1:
                hit.append(k)
        require(not hit, f"in_transit of all planets {idx.tolist()} is not the union {sorted(union)}")
    if not lost and dlt == set():
        require((len(idx1) == 1) == (j in union), "in_transit of one time alone")
    return info(n > 1 and np.any(batch < 0), c["kind"], f"{n} planets", c["which"])


@st.composite
def rv_case(draw):
    """Radial velocities, with and without semi-amplitudes."""
    c = draw(case())
    if c["kind"] == "simple":
        c = draw(case().filter(lambda c: c["kind"] != "simple"))
    return dict(c, method="radial_velocity")


CHECKS = [
    Check("planets", case(), planets, 500),
    Check("rv", rv_case(), planets, 150),
    Check("times", case(), times, 350),
    Check("attributes", case(), attributes, 200),
    Check("light_curve", lc_case(), light_curve, 250),
]
