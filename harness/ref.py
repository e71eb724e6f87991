"""Independent numpy reference models.  Nothing here imports exoplanet.

Conventions (documented in the exoplanet docs): distances R_sun, masses M_sun, times days,
+Z towards the observer, a transit has Z > 0; omega is the argument of periastron of the
*star's* orbit; Omega the position angle of the ascending node; circular orbits have omega=0.
"""
import astropy.constants as c
import astropy.units as u
import numpy as np

G = c.G.to(u.R_sun**3 / u.M_sun / u.day**2).value
GCC = (1 * u.M_sun / u.R_sun**3).to(u.g / u.cm**3).value
AU_PER_RSUN = (1 * u.R_sun).to(u.au).value
C_LIGHT = c.c.to(u.R_sun / u.day).value
RSUN_DAY_TO_MS = (1 * u.R_sun / u.day).to(u.m / u.s).value
EPS = np.finfo(float).eps


def kepler(M, e):
    """Eccentric anomaly by bracketed Newton iteration, any M (wrapped to [-pi, pi))."""
    M = np.asarray(M, float)
    e = np.asarray(e, float)
    M, e = np.broadcast_arrays(M, e)
    Mw = np.mod(M + np.pi, 2 * np.pi) - np.pi
    sgn = np.where(Mw < 0, -1.0, 1.0)
    Ma = np.abs(Mw)
    lo = Ma.copy()  # E >= M for M in [0, pi]
    hi = np.minimum(Ma + e, np.pi)
    E = 0.5 * (lo + hi)
    for _ in range(80):
        f = E - e * np.sin(E) - Ma
        lo = np.where(f <= 0, E, lo)
        hi = np.where(f >= 0, E, hi)
        step = E - f / (1 - e * np.cos(E) + 1e-300)
        E = np.where((step > lo) & (step < hi), step, 0.5 * (lo + hi))
    return sgn * E


def anomalies(M, e):
    """sin f, cos f of the true anomaly."""
    E = kepler(M, e)
    d = 1 - e * np.cos(E)
    return np.sqrt(1 - e**2) * np.sin(E) / d, (np.cos(E) - e) / d


def transit_mean_anomaly(e, omega):
    """Mean anomaly when omega + f = pi/2 (planet in front of the star)."""
    f0 = 0.5 * np.pi - omega
    E = np.arctan2(np.sqrt(1 - e**2) * np.sin(f0), e + np.cos(f0))
    return E - e * np.sin(E)


def resolve(p):
    """Documented resolution of period/a/stellar inputs.  p: plain dict in standard units
    (rho_star in g/cc).  Returns a, period, rho_star(g/cc), r_star, m_star, m_planet."""
    a, P = p.get("a"), p.get("period")
    rho, r, m = p.get("rho_star"), p.get("r_star"), p.get("m_star")
    mp = p.get("m_planet")
    mp = 0.0 if mp is None else np.asarray(mp, float)
    A = lambda v: None if v is None else np.asarray(v, float)  # noqa: E731
    a, P, rho, r, m = A(a), A(P), A(rho), A(r), A(m)
    if a is not None and P is not None:
        r = np.asarray(1.0) if r is None else r
        mt = 4 * np.pi**2 * a**3 / (G * P**2)
        m = mt - mp
        rho = m / (4 * np.pi * r**3 / 3) * GCC
        return a, P, rho, r, m, mp
    if rho is None and r is None and m is None:
        r = m = np.asarray(1.0)
    elif rho is not None and r is None and m is None:
        r = np.asarray(1.0)
    if m is None:
        m = rho / GCC * 4 * np.pi * r**3 / 3
    elif r is None:
        r = np.cbrt(3 * m / (4 * np.pi * rho / GCC))
    elif rho is None:
        rho = 3 * m / (4 * np.pi * r**3) * GCC
    if a is None:
        a = np.cbrt(G * (m + mp) * P**2 / (4 * np.pi**2))
    else:
        P = 2 * np.pi * np.sqrt(a**3 / (G * (m + mp)))
    return a, P, rho, r, m, mp


def solver_error(M, e):
    """Error of exoplanet_core's Kepler solver (external dependency, measured against
    extended precision): it returns tan(f/2)-based sines that lose eps / (pi - |E|) near
    apoastron, and snaps to f = pi when pi - |E| < 1.42e-5."""
    dE = np.pi - np.abs(kepler(M, e))
    return np.where(dE < 2e-5, 2e-5, 4e-15 / np.maximum(dE, 1e-5))


class Orbit:
    """All planets broadcast to shape (np,) (or () for all-scalar input)."""

    def __init__(self, p):
        self.a, self.P, self.rho, self.R, self.m, self.mp = resolve(p)
        self.mt = self.m + self.mp
        self.n = 2 * np.pi / self.P
        self.circ = p.get("ecc") is None
        if self.circ:
            self.e, self.w = np.asarray(0.0), np.asarray(0.0)
            self.sw, self.cw = np.asarray(0.0), np.asarray(1.0)
        else:
            self.e = np.asarray(p["ecc"], float)
            if p.get("omega") is not None:
                self.w = np.asarray(p["omega"], float)
                self.sw, self.cw = np.sin(self.w), np.cos(self.w)
            else:
                self.sw = np.asarray(p["sin_omega"], float)
                self.cw = np.asarray(p["cos_omega"], float)
                self.w = np.arctan2(self.sw, self.cw)
        self.M0 = transit_mean_anomaly(self.e, self.w)
        f = (1 - self.e**2) / (1 + self.e * self.sw)  # r_transit / a
        self.dcosidb = self.R / (self.a * f)
        if p.get("incl") is not None:
            self.incl = np.asarray(p["incl"], float)
            self.ci, self.si = np.cos(self.incl), np.sin(self.incl)
            self.b = self.ci / self.dcosidb
        else:
            self.b = np.asarray(p["b"] if p.get("b") is not None else 0.0, float)
            self.ci = self.b * self.dcosidb
            self.incl = np.arccos(self.ci)
            self.si = np.sqrt((1 - self.ci) * (1 + self.ci))
        self.Om = np.asarray(p["Omega"] if p.get("Omega") is not None else 0.0, float)
        self.cO, self.sO = np.cos(self.Om), np.sin(self.Om)
        if p.get("t_periastron") is not None:
            self.tp = np.asarray(p["t_periastron"], float)
            self.t0 = self.tp + self.M0 / self.n
        else:
            self.t0 = np.asarray(p["t0"] if p.get("t0") is not None else 0.0, float)
            self.tp = self.t0 - self.M0 / self.n
        self.nplanets = np.broadcast(
            self.a, self.P, self.e, self.w, self.incl, self.t0, self.mp, self.Om
        ).shape

    # -- geometry
    def _M(self, t, pad=True):
        t = np.asarray(t, float)
        tt = t[..., None] if (pad and self.nplanets) else t
        return (tt - self.tp) * self.n

    def rot(self, x, y):
        x1 = self.cw * x - self.sw * y
        y1 = self.sw * x + self.cw * y
        X, Y, Z = x1, self.ci * y1, -self.si * y1
        return (
            self.cO * X - self.sO * Y,
            self.sO * X + self.cO * Y,
            Z + 0 * X,
        )

    def body_pos(self, A, t, pad=True):
        """Vector A * r/a * (cos f, sin f) rotated to the observer frame."""
        s, c_ = anomalies(self._M(t, pad), self.e)
        r = A * (1 - self.e**2) / (1 + self.e * c_)
        return self.rot(r * c_, r * s)

    def body_vel(self, A, t, pad=True):
        s, c_ = anomalies(self._M(t, pad), self.e)
        k = A * self.n / np.sqrt(1 - self.e**2)
        return self.rot(-k * s, k * (c_ + self.e))

    def body_acc(self, A, t, pad=True):
        s, c_ = anomalies(self._M(t, pad), self.e)
        r = (1 - self.e**2) / (1 + self.e * c_)
        k = -A * self.n**2 / r**2
        return self.rot(k * c_, k * s)

    @property
    def A_rel(self):
        return -self.a

    @property
    def A_planet(self):
        return -self.a * self.m / self.mt

    @property
    def A_star(self):
        return self.a * self.mp / self.mt

    def angle_error(self, t, extra=0.0):
        """Bound on the rounding error of the true anomaly for any correct float64
        evaluation of Kepler's equation at t (eps in M times the worst d f / d M)."""
        M = self._M(t)
        scale = np.abs(np.asarray(t, float))
        scale = scale[..., None] if self.nplanets else scale
        dM = EPS * (
            np.abs(M) + (scale + np.abs(self.tp) + np.abs(self.t0)) * self.n + 10
        )
        amp = (1 + self.e) ** 2 / (1 - self.e**2) ** 1.5
        out = 8 * dM * amp + 1e-13 * amp
        if not self.circ:
            out = out + solver_error(M, self.e)
        return out


class TTV(Orbit):
    """Keplerian motion with time measured from the nearest labelled transit.

    c: dict with p (system without period/t0 where they are implied) and ttvs or transit_times,
    optional transit_inds, optional delta_log_period."""

    def __init__(self, c):
        p = dict(c["p"])
        given = c.get("ttvs") if c.get("ttvs") is not None else c["transit_times"]
        n = len(given)
        inds = c.get("transit_inds")
        self.inds = [np.arange(len(g)) if inds is None else np.asarray(inds[i], int)
                     for i, g in enumerate(given)]
        if c.get("ttvs") is not None:
            super().__init__(p)
            P = np.broadcast_to(self.P, (n,)).astype(float)
            t0 = np.broadcast_to(self.t0, (n,)).astype(float)
            self.ttv_period = P
            self.ttvs = [np.asarray(g, float) for g in given]
            self.times = [t0[i] + P[i] * self.inds[i] + self.ttvs[i] for i in range(n)]
        else:
            self.times = [np.asarray(g, float) for g in given]
            P, t0 = [], []
            for x, y in zip(self.inds, self.times):
                # ordinary least squares, centred
                xm, ym = x.mean(), y.mean()
                s = np.sum((x - xm) * (y - ym)) / np.sum((x - xm) ** 2)
                P.append(s)
                t0.append(ym - s * xm)
            self.ttv_period, t0 = np.array(P), np.array(t0)
            self.ttvs = [y - (t0[i] + self.ttv_period[i] * x)
                         for i, (x, y) in enumerate(zip(self.inds, self.times))]
            p["t0"] = t0
            if p.get("period") is None:
                d = c.get("delta_log_period")
                p["period"] = self.ttv_period * (1.0 if d is None else np.exp(np.asarray(d)))
            super().__init__(p)
        # rounding error of any sensible float64 least-squares fit
        self.fit_error = np.zeros(n)
        if c.get("ttvs") is None:
            for i, (x, y) in enumerate(zip(self.inds, self.times)):
                N, den = len(x), len(x) * np.sum(x**2) - np.sum(x) ** 2
                self.fit_error[i] = 8 * EPS * N * np.sum((x + 1.0) ** 2) * np.max(
                    np.abs(y)) / den * (1 + np.max(x))
        self.all_times = []
        for i, x in enumerate(self.inds):
            full = t0[i] + self.ttv_period[i] * np.arange(x.max() + 1)
            full[x] = self.times[i]
            self.all_times.append(full)
        self.nplanets = (n,)

    def nearest(self, t):
        """Nearest labelled transit per planet, and the distance to the next-nearest's edge."""
        t = np.asarray(t, float)
        near, gap = [], []
        for tt in self.all_times:
            d = np.abs(t[..., None] - tt)
            near.append(tt[np.argmin(d, axis=-1)])
            if len(tt) > 1:
                two = np.sort(d, axis=-1)[..., :2]
                gap.append(0.5 * (two[..., 1] - two[..., 0]))
            else:
                gap.append(np.full(t.shape, np.inf))
        return np.stack(near, -1), np.stack(gap, -1)

    def angle_error(self, t, extra=0.0):
        amp = (1 + self.e) ** 2 / (1 - self.e**2) ** 1.5
        dt = np.abs(np.asarray(t, float)[..., None] - self.nearest(t)[0])
        dM = self.n * (self.fit_error + dt / self.P * self.fit_error)
        scale = max(np.max(np.abs(x)) for x in self.all_times)
        return super().angle_error(t) + amp * (dM + 8 * EPS * self.n * scale)

    def _M(self, t, pad=True):
        t = np.asarray(t, float)
        if pad:
            near = self.nearest(t)[0]
            dt = t[..., None] - near
        else:
            near = np.stack([self.nearest(t[..., i])[0][..., i]
                             for i in range(self.nplanets[0])], -1)
            dt = t - near
        return (dt - (self.tp - self.t0)) * self.n
