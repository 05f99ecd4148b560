"""Arbitrary-precision reference model of a concentric layered sphere.

Independent of pymiediff in formulation and arithmetic: the radial solutions are
Riccati-Bessel functions in mpmath (continued fraction + downward recurrence for
psi, upward recurrence for chi); per multipole order the two continuous field
components are carried outward through the interfaces by the 2x2 transfer
A psi + B chi.  No logarithmic derivatives, no ratio recurrences, no truncation
heuristics: the caller says which orders it wants.
Conventions: exp(-i w t), Bohren & Huffman coefficients.
"""
import math
import mpmath as mp

mpf, mpc = mp.mpf, mp.mpc


def to_mp(x):
    if isinstance(x, (mp.mpf, mp.mpc)):
        return x
    x = complex(x)
    if x.imag == 0:
        return mp.mpf(x.real)
    return mp.mpc(x.real, x.imag)


def riccati(nmax, z):
    """psi_n, chi_n (= -z y_n) and derivatives for n = 0..nmax at working precision."""
    z = to_mp(z)
    # psi: ratio psi_{N+1}/psi_N by Lentz continued fraction, then downward
    N = nmax + 1
    tiny = mp.mpf(10) ** (-4 * mp.mp.dps)
    tol = mp.mpf(10) ** (-mp.mp.dps - 2)
    zi = 1 / z
    # CF for psi_{N}/psi_{N+1} = (2N+3)/z - 1/((2N+5)/z - 1/(...
    b = (2 * N + 3) * zi
    f = b if b != 0 else tiny
    C, D = f, mp.mpf(0)
    j = 1
    while True:
        bj = (2 * (N + j) + 3) * zi
        D = bj - D
        if D == 0:
            D = tiny
        C = bj - 1 / C
        if C == 0:
            C = tiny
        D = 1 / D
        d = C * D
        f = f * d
        if abs(d - 1) < tol:
            break
        j += 1
        if j > 200000:
            raise ArithmeticError("oracle: continued fraction did not converge")
    psi = [None] * (N + 2)
    psi[N + 1] = mp.mpf(1)
    psi[N] = f
    for n in range(N, 0, -1):
        psi[n - 1] = (2 * n + 1) * zi * psi[n] - psi[n + 1]
    s, c = mp.sin(z), mp.cos(z)
    p0, p1 = s, s * zi - c
    # p1 suffers cancellation at small |z|; p0 does not, unless s ~ 0 (|z| ~ k pi)
    if abs(s) > mp.mpf("0.1") * abs(psi[0]) / (abs(psi[1]) + abs(psi[0])) or abs(z) < 2:
        norm = p0 / psi[0]
    else:
        norm = p1 / psi[1]
    psi = [v * norm for v in psi[: nmax + 1]]
    chi = [c, c * zi + s]
    for n in range(1, nmax):
        chi.append((2 * n + 1) * zi * chi[n] - chi[n - 1])
    chi = chi[: nmax + 1]
    dpsi = [c] + [psi[n - 1] - n * zi * psi[n] for n in range(1, nmax + 1)]
    dchi = [-s] + [chi[n - 1] - n * zi * chi[n] for n in range(1, nmax + 1)]
    return psi, chi, dpsi, dchi


def digits_for(k, radii, ms, base=34):
    """Working digits: base + growth of the evanescent factors exp(2 Im z)."""
    im = 0.0
    prev = 0.0
    for r, m in zip(radii, ms):
        z1 = abs((complex(m) * complex(k) * float(r)).imag)
        im = max(im, z1)
    return int(base + 0.9 * 2 * im)


class Sphere:
    """Layered sphere in a (possibly absorbing) host; orders 1..nmax."""

    def __init__(self, k0, radii, eps, eps_env=1.0, nmax=10, dps=None, base=34):
        self.nmax = int(nmax)
        radii = [float(r) if not isinstance(r, mp.mpf) else r for r in radii]
        ms0 = [complex(e) ** 0.5 / complex(eps_env) ** 0.5 for e in eps]
        kk = complex(k0) * complex(eps_env) ** 0.5
        self.dps = dps or digits_for(kk, radii, ms0, base) + self._chi_loss(kk, radii, ms0)
        with mp.workdps(self.dps):
            self._solve(k0, radii, eps, eps_env)

    def _chi_loss(self, kk, radii, ms):
        return 0

    def _solve(self, k0, radii, eps, eps_env):
        self.k0 = to_mp(k0)
        self.n_env = mp.sqrt(to_mp(eps_env))
        self.n_l = [mp.sqrt(to_mp(e)) for e in eps]
        self.m = [n / self.n_env for n in self.n_l]
        self.r = [to_mp(r) for r in radii]
        self.k = self.k0 * self.n_env
        x = [self.k * r for r in self.r]
        L, N = len(x), self.nmax
        A_tm = [[None] * (N + 1) for _ in range(L)]
        B_tm = [[None] * (N + 1) for _ in range(L)]
        A_te = [[None] * (N + 1) for _ in range(L)]
        B_te = [[None] * (N + 1) for _ in range(L)]
        p = [None] * (N + 1)  # TM pair
        t = [None] * (N + 1)  # TE pair
        for l in range(L):
            m = self.m[l]
            if l > 0:
                ps, ch, dps_, dch = riccati(N, m * x[l - 1])
                for n in range(1, N + 1):
                    u, w = p[n][0], p[n][1] * m
                    A_tm[l][n] = dch[n] * (-u) + ch[n] * w
                    B_tm[l][n] = dps_[n] * u - ps[n] * w
                    u, w = t[n][0] * m, t[n][1]
                    A_te[l][n] = dch[n] * (-u) + ch[n] * w
                    B_te[l][n] = dps_[n] * u - ps[n] * w
            else:
                for n in range(1, N + 1):
                    A_tm[0][n] = A_te[0][n] = mp.mpf(1)
                    B_tm[0][n] = B_te[0][n] = mp.mpf(0)
            ps, ch, dps_, dch = riccati(N, m * x[l])
            for n in range(1, N + 1):
                A, B = A_tm[l][n], B_tm[l][n]
                p[n] = (A * ps[n] + B * ch[n], (A * dps_[n] + B * dch[n]) / m)
                A, B = A_te[l][n], B_te[l][n]
                t[n] = ((A * ps[n] + B * ch[n]) / m, A * dps_[n] + B * dch[n])
        ps, ch, dps_, dch = riccati(N, x[-1])
        # natural rounding scale of the coefficients: |psi_n / zeta_n| at the surface
        self.pz = [min(1.0, float(abs(ps[n] / (ps[n] - 1j * ch[n])))) for n in range(1, N + 1)]
        self.a = [None] * (N + 1)
        self.b = [None] * (N + 1)
        self.s_tm = [None] * (N + 1)
        self.s_te = [None] * (N + 1)
        for n in range(1, N + 1):
            xi, dxi = ps[n] - 1j * ch[n], dps_[n] - 1j * dch[n]
            for (u, w), co, sc in ((p[n], self.a, self.s_tm), (t[n], self.b, self.s_te)):
                c = (u * dps_[n] - w * ps[n]) / (u * dxi - w * xi)
                co[n] = c
                # amplitude from the better conditioned of the two matching rows
                s1 = (ps[n] - c * xi, u)
                s2 = (dps_[n] - c * dxi, w)
                sc[n] = s1[0] / s1[1] if abs(u) * abs(dxi) > abs(w) * abs(xi) else s2[0] / s2[1]
        self.A_tm, self.B_tm, self.A_te, self.B_te = A_tm, B_tm, A_te, B_te
        self.x = x

    def scattered_scale(self, r):
        """Size at radius r of scattered fields whose coefficients have the size of their rounding scale."""
        with mp.workdps(self.dps + int(0.9 * abs(complex(self.k).imag) * float(r))):
            rho = self.k * to_mp(r)
            ps, ch, dp, dc = riccati(self.nmax, rho)
            out = 0.0
            for n in range(1, self.nmax + 1):
                xi, dxi = abs(ps[n] - 1j * ch[n]), abs(dp[n] - 1j * dc[n])
                out += (2 * n + 1) * self.pz[n - 1] * float((xi * (1 + n / abs(rho)) + dxi) / abs(rho))
            return out

    # ---- observables -------------------------------------------------------
    def ab(self):
        return ([complex(v) for v in self.a[1:]], [complex(v) for v in self.b[1:]])

    def cross_sections(self, nmax=None):
        N = nmax or self.nmax
        with mp.workdps(self.dps):
            k = self.k
            ext = [[(2 * n + 1) * 2 * mp.pi / k**2 * mp.re(c[n]) for n in range(1, N + 1)] for c in (self.a, self.b)]
            sca = [[(2 * n + 1) * 2 * mp.pi / k**2 * abs(c[n]) ** 2 for n in range(1, N + 1)] for c in (self.a, self.b)]
            return dict(ext_mp=ext, sca_mp=sca, ext=sum(map(sum, ext)), sca=sum(map(sum, sca)),
                        geo=mp.pi * self.r[-1] ** 2)

    def s1s2(self, theta, nmax=None):
        N = nmax or self.nmax
        with mp.workdps(self.dps):
            mu = mp.cos(to_mp(theta))
            pi, tau = pi_tau(N, mu)
            s1 = s2 = mp.mpc(0)
            for n in range(1, N + 1):
                f = mp.mpf(2 * n + 1) / (n * (n + 1))
                s1 += f * (self.a[n] * pi[n] + self.b[n] * tau[n])
                s2 += f * (self.a[n] * tau[n] + self.b[n] * pi[n])
            return s1, s2

    def fields(self, xyz, E0=1.0, nmax=None, region=None):
        """(E, H, E_i, H_i): internal full field inside, scattered field outside."""
        N = nmax or self.nmax
        im = abs(complex(self.k).imag) * math.sqrt(sum(float(c) ** 2 for c in xyz))
        with mp.workdps(self.dps + int(0.9 * im)):
            X, Y, Z = [to_mp(c) for c in xyz]
            r = mp.sqrt(X * X + Y * Y + Z * Z)
            ct = Z / r
            st = mp.sqrt(X * X + Y * Y) / r
            phi = mp.atan2(Y, X)
            cp, sp = mp.cos(phi), mp.sin(phi)
            if region is None:
                region = len(self.r)
                for l, rl in enumerate(self.r):
                    if r <= rl:
                        region = l
                        break
            outside = region == len(self.r)
            nrel = mp.mpf(1) if outside else self.m[region]
            nabs = self.n_env if outside else self.n_l[region]
            rho = self.k * nrel * r
            ps, ch, dp, dc = riccati(N, rho)
            pi, tau = pi_tau(N, ct)
            E = [mp.mpc(0)] * 3
            H = [mp.mpc(0)] * 3
            E0 = to_mp(E0)
            for n in range(1, N + 1):
                En = mp.mpc(0, 1) ** n * E0 * (2 * n + 1) / mp.mpf(n * (n + 1))
                if outside:
                    xi, dxi = ps[n] - 1j * ch[n], dp[n] - 1j * dc[n]
                    utm, dtm = -self.a[n] * xi, -self.a[n] * dxi
                    ute, dte = -self.b[n] * xi, -self.b[n] * dxi
                else:
                    l = region
                    utm = self.s_tm[n] * (self.A_tm[l][n] * ps[n] + self.B_tm[l][n] * ch[n])
                    dtm = self.s_tm[n] * (self.A_tm[l][n] * dp[n] + self.B_tm[l][n] * dc[n])
                    ute = self.s_te[n] * (self.A_te[l][n] * ps[n] + self.B_te[l][n] * ch[n])
                    dte = self.s_te[n] * (self.A_te[l][n] * dp[n] + self.B_te[l][n] * dc[n])
                nn = n * (n + 1)
                # E = En (M_o[TE] - i N_e[TM]);  H = -n En (M_e[TM] + i N_o[TE])
                Mo = (0, cp * pi[n] * ute / rho, -sp * tau[n] * ute / rho)
                Ne = (cp * nn * st * pi[n] * utm / rho**2, cp * tau[n] * dtm / rho, -sp * pi[n] * dtm / rho)
                Me = (0, -sp * pi[n] * utm / rho, -cp * tau[n] * utm / rho)
                No = (sp * nn * st * pi[n] * ute / rho**2, sp * tau[n] * dte / rho, cp * pi[n] * dte / rho)
                for i in range(3):
                    E[i] += En * (Mo[i] - 1j * Ne[i])
                    H[i] += -nabs * En * (Me[i] + 1j * No[i])
            cart = lambda v: (
                st * cp * v[0] + ct * cp * v[1] - sp * v[2],
                st * sp * v[0] + ct * sp * v[1] + cp * v[2],
                ct * v[0] - st * v[1],
            )
            pw = E0 * mp.exp(1j * self.k * Z)
            return cart(E), cart(H), (pw, 0, 0), (0, self.n_env * pw, 0)


def pi_tau(N, mu):
    pi = [mp.mpf(0), mp.mpf(1)]
    for n in range(2, N + 1):
        pi.append(((2 * n - 1) * mu * pi[n - 1] - n * pi[n - 2]) / (n - 1))
    tau = [mp.mpf(0)] + [n * mu * pi[n] - (n + 1) * pi[n - 1] for n in range(1, N + 1)]
    return pi[: N + 1], tau[: N + 1]
