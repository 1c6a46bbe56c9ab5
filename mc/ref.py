"""Reference model of a layered beam on an elastic weak layer, written from the governing equations.

Shares no code with weac.  State vector y = [u, N, w, V, psi, M] (midplane displacement, axial force, deflection,
shear force, cross-section rotation, bending moment).  All in N, mm, t, MPa.

  u'   = (D N - B M)/(A D - B^2)         N' = tau - (qt + pt)
  w'   = V/kA - psi                      V' = kn w - (qn + pn)
  psi' = (A M - B N)/(A D - B^2)         M' = V + tau (h+t)/2 - qt zs + pt h/2
  tau  = kt (u + h/2 psi - t/2 w')       on supported stretches; kn = kt = 0 elsewhere
"""
import numpy as np
from scipy.linalg import expm

DB = {  # documented profile database: (density, thickness, Young's modulus), top to bottom
    "soft1": (180.0, 120.0, 5.0), "medium1": (270.0, 120.0, 30.0), "hard1": (350.0, 120.0, 93.8)}
_S, _M, _H = DB["soft1"], DB["medium1"], DB["hard1"]
PROFILES = {"a": [_H, _M, _S], "b": [_S, _M, _H], "c": [_H, _S, _H], "d": [_S, _H, _S], "e": [_H, _S, _S],
            "f": [_S, _S, _H], "h": [_M, _M, _M], "soft": [_S] * 3, "medium": [_M] * 3, "hard": [_H] * 3,
            "comp": [(240.0, 200.0, 5.23)]}


def bergfeld(rho, C0=6.5, C1=4.4):
    return C0 * 1e3 * (np.asarray(rho, float) / 917.0) ** C1


class Ref:
    """Slab + weak layer + loads."""

    def __init__(self, layers, weak=(30.0, 0.25, 0.25), mat=(6.5, 4.4, 0.25), phi=0.0, p=0.0, g=9810.0,
                 lski=1000.0):
        C0, C1, nu = mat
        if isinstance(layers, str):
            rows = PROFILES[layers.split()[-1].lower()]
            rho = np.array([r[0] for r in rows])
            hi = np.array([r[1] for r in rows])
            Ei = np.array([r[2] for r in rows])
        else:
            rho = np.array([float(r[0]) for r in layers])
            hi = np.array([float(r[1]) for r in layers])
            Ei = bergfeld(rho, C0, C1)
        self.rho, self.hi, self.Ei, self.nu = rho, hi, Ei, nu
        self.Gi = Ei / (2 * (1 + nu))
        self.Ep = Ei / (1 - nu**2)
        self.h = float(np.sum(hi))
        self.top = -self.h / 2 + np.concatenate([[0.0], np.cumsum(hi)])
        zc = self.top[:-1] + hi / 2
        self.zc = zc
        self.zs = float(np.sum(rho * hi * zc) / np.sum(rho * hi))
        self.A = float(np.sum(self.Ep * hi))
        self.B = float(np.sum(self.Ep * hi * zc))
        self.D = float(np.sum(self.Ep * (hi * zc**2 + hi**3 / 12)))
        self.kA = float(5.0 / 6.0 * np.sum(self.Gi * hi))
        self.t, E, n = float(weak[0]), float(weak[1]), float(weak[2])
        self.kn = E / (1 - n**2) / self.t
        self.kt = E / (2 * (1 + n)) / self.t
        self.g, self.lski, self.p = float(g), float(lski), float(p)
        self.set_phi(phi)

    def set_phi(self, phi):
        self.phi = phi
        c, s = np.cos(np.deg2rad(phi)), np.sin(np.deg2rad(phi))
        self.q = float(np.sum(self.rho * self.hi)) * 1e-12 * self.g
        self.qn, self.qt = self.q * c, -self.q * s
        self.pn, self.pt = self.p * c, -self.p * s
        self.c, self.s = c, s

    def skier(self, m):
        F = 1e-3 * m * self.g / self.lski
        return F * self.c, -F * self.s

    # -- state vectors -------------------------------------------------------
    def y(self, Z):
        """State from a weac-type solution matrix [u u' w w' psi psi']."""
        u, du, w, dw, psi, dpsi = np.asarray(Z, float)
        return np.array([u, self.A * du + self.B * dpsi, w, self.kA * (dw + psi), psi,
                         self.B * du + self.D * dpsi])

    def z(self, y):
        u, N, w, V, psi, M = y
        det = self.A * self.D - self.B**2
        return np.array([u, (self.D * N - self.B * M) / det, w, V / self.kA - psi, psi,
                         (self.A * M - self.B * N) / det])

    def field(self, bed, kfac=1.0, loads=True):
        A, B, D, kA, h, t = self.A, self.B, self.D, self.kA, self.h, self.t
        det = A * D - B**2
        kn, kt = (self.kn * kfac, self.kt * kfac) if bed else (0.0, 0.0)
        F = np.zeros((6, 6))
        f = np.zeros(6)
        F[0, 1], F[0, 5] = D / det, -B / det
        F[4, 5], F[4, 1] = A / det, -B / det
        F[2, 3], F[2, 4] = 1 / kA, -1.0
        tau = np.zeros(6)
        tau[0], tau[4] = kt, kt * h / 2
        tau += -kt * t / 2 * F[2]
        F[1] += tau
        F[3, 2] += kn
        F[5, 3] += 1.0
        F[5] += tau * (h + t) / 2
        if loads:
            f[1] = -(self.qt + self.pt)
            f[3] = -(self.qn + self.pn)
            f[5] = -self.qt * self.zs + self.pt * h / 2
        return F, f

    def flow(self, dx, bed):
        F, f = self.field(bed)
        X = np.zeros((7, 7))
        X[:6, :6], X[:6, 6] = F, f
        # balance for accuracy: exponentiate in a scaled basis
        S = self.basis()
        Xs = X / S[:, None] * S[None, :]
        P = expm(Xs * dx)
        P = P * S[:, None] / S[None, :]
        return P[:6, :6], P[:6, 6]

    def basis(self):
        ell = self.ell()
        N0 = self.kA * 1.0
        return np.array([ell, N0, ell, N0, 1.0, N0 * ell, 1.0])

    def ell(self):
        return 1.0 / self.lam()

    def lam(self):
        """Largest decay rate of a supported stretch (1/mm)."""
        if not hasattr(self, "_lam"):
            F, _ = self.field(True, loads=False)
            S = np.array([1.0, self.kA / self.h, 1.0, self.kA / self.h, 1 / self.h, self.kA])
            self._lam = float(np.max(np.abs(np.linalg.eigvals(F / S[:, None] * S[None, :]))))
        return self._lam

    def lam_min(self):
        F, _ = self.field(True, loads=False)
        S = np.array([1.0, self.kA / self.h, 1.0, self.kA / self.h, 1 / self.h, self.kA])
        return float(np.min(np.abs(np.linalg.eigvals(F / S[:, None] * S[None, :]).real)))

    def tau(self, Z):
        return self.kt * (Z[0] + self.h / 2 * Z[4] - self.t / 2 * Z[3])

    def sig(self, Z):
        return -self.kn * np.asarray(Z)[2]

    def undisturbed(self):
        """Solution of an infinite uncracked slab."""
        F, f = self.field(True)
        S = self.basis()[:6]
        y = -np.linalg.solve(F / S[:, None] * S[None, :], f / S) * S
        return y

    def scales(self, Y):
        """Component scales of a set of states (columns) used for relative comparison."""
        a = np.max(np.abs(np.asarray(Y).reshape(6, -1)), axis=1)
        d = max(a[0], a[2], self.h * a[4])
        r = max(a[4], d / (self.h + self.ell()) * 0.1)
        n = max(a[1], a[3], a[5] / (self.h + self.ell()))
        mm = max(a[5], n * self.h)
        s = np.array([d, n, d, n, r, mm])
        return np.where(s > 0, s, 1.0)

    def wedge(self):
        """Section forces [N, M, V] from the snow wedge at a vertical face."""
        T = np.tan(np.deg2rad(self.phi))
        # width of the wedge at depth z: (h/2 - z) tan(phi); integrate exactly per layer
        m = mx = mz = 0.0
        for r, z0, z1 in zip(self.rho, self.top[:-1], self.top[1:]):
            a, b = self.h / 2 - z0, self.h / 2 - z1          # distances from the bottom
            area = T * (a**2 - b**2) / 2
            mx += r * T**2 * (a**3 - b**3) / 6
            mz += r * T * (self.h / 2 * (a**2 - b**2) / 2 - (a**3 - b**3) / 3)
            m += r * area
        m, mx, mz = m * 1e-12, mx * 1e-12, mz * 1e-12
        return np.array([-self.g * m * self.s, -self.g * (mx * self.c + mz * self.s), self.g * m * self.c])

    # -- substitute springs of a free-free supported beam ---------------------
    def spring(self, L, dof, kfac=1.0):
        """Stiffness |load / displacement| at the loaded left end of a free beam of length L on the weak layer."""
        F, _ = self.field(True, kfac, loads=False)
        S = self.basis()[:6]
        Fs = F / S[:, None] * S[None, :]
        lam, V = np.linalg.eig(Fs)
        x0 = np.where(lam.real > 0, L, 0.0)              # anchor growing modes at the right end
        left = V * np.exp(lam * (0 - x0))
        right = V * np.exp(lam * (L - x0))
        K = np.vstack([left[[1, 3, 5]], right[[1, 3, 5]]])
        b = np.zeros(6, complex)
        b[{"trans": 1, "rot": 2}[dof]] = 1.0
        sc = np.max(np.abs(K), axis=1)
        c = np.linalg.solve(K / sc[:, None], b / sc)
        y = (left @ c).real * S
        load = {"trans": S[3], "rot": S[5]}[dof]
        return abs(load / y[{"trans": 2, "rot": 4}[dof]])

    # -- cantilever on springs ------------------------------------------------
    def cantilever(self, l, kN, kR, bc, kRr=0.0, tc=0.0):
        """Free-span sagging under qn+pn on left springs; right end by `bc`; returns [w, w', M, V] at the tip."""
        bs, ss, q = self.D - self.B**2 / self.A, self.kA, self.qn + self.pn
        # exact polynomial solution: V = V0 - q x, M = M0 + V0 x - q x^2/2, psi, w by integration
        def tip(V0, M0, w0, p0):
            V = V0 - q * l
            M = M0 + V0 * l - q * l**2 / 2
            psi = p0 + (M0 * l + V0 * l**2 / 2 - q * l**3 / 6) / bs
            w = w0 + (V0 * l - q * l**2 / 2) / ss - p0 * l - (M0 * l**2 / 2 + V0 * l**3 / 6 - q * l**4 / 24) / bs
            return np.array([w, V / ss - psi, M, V, psi])
        # springs: w0 = V0/kN (downward), rotation M0 = kR p0
        c0 = tip(0, 0, 0, 0)
        cV = tip(1.0, 0, 1.0 / kN, 0) - c0
        cM = tip(0, 1.0, 0, 1.0 / kR) - c0
        if bc == "free":          # V = M = 0
            rows = [3, 2]
            K = np.array([[cV[3], cM[3]], [cV[2], cM[2]]])
            r = -np.array([c0[3], c0[2]])
        elif bc == "touch":       # w = tc, M = 0
            K = np.array([[cV[0], cM[0]], [cV[2], cM[2]]])
            r = np.array([tc - c0[0], -c0[2]])
        else:                     # "rest": w = tc, M + kRr psi = 0
            K = np.array([[cV[0], cM[0]], [cV[2] + kRr * cV[4], cM[2] + kRr * cM[4]]])
            r = np.array([tc - c0[0], -(c0[2] + kRr * c0[4])])
        x = np.linalg.solve(K, r)
        return c0 + cV * x[0] + cM * x[1]


class Infinite:
    """Slab on segments of an endless snow cover with skiers between them, solved from Ref alone.

    Supported stretches: undisturbed state plus exponentials, growing ones anchored at the right end of the stretch;
    unsupported stretches: polynomials, obtained by the exact flow from their left end.
    """

    def __init__(self, R, li, ki, mi):
        self.R, self.li, self.ki = R, [float(l) for l in li], [bool(k) for k in ki]
        n = len(self.li)
        S = R.basis()[:6]
        self.S = S
        F, _ = R.field(True, loads=False)
        self.lam, self.V = np.linalg.eig(F / S[:, None] * S[None, :])
        self.und = R.undisturbed()
        K, b = np.zeros((6 * n, 6 * n), complex), np.zeros(6 * n, complex)
        grow = self.lam.real > 0
        r = 0
        for i, on in enumerate(self.ki):
            if i == 0 or i == n - 1:                     # nothing grows towards the ends of the snow cover
                if not on:
                    raise ValueError("ends must be supported")
                for k in np.flatnonzero(~grow if i == 0 else grow):
                    K[r, 6 * i + k] = 1.0
                    r += 1
        for j in range(n - 1):
            A, a = self._map(j, self.li[j])
            B, c = self._map(j + 1, 0.0)
            Fn, Ft = R.skier(mi[j])
            jump = np.array([0, -Ft, 0, -Fn, 0, Ft * R.h / 2]) / S
            K[r:r + 6, 6 * j:6 * j + 6], K[r:r + 6, 6 * j + 6:6 * j + 12] = -A, B
            b[r:r + 6] = a + jump - c
            r += 6
        sc = np.max(np.abs(K), axis=1)
        self.c = np.linalg.solve(K / sc[:, None], b / sc).reshape(n, 6)

    def _map(self, i, x):
        """Scaled state at x of segment i as matrix on its constants and a constant vector."""
        if self.ki[i]:
            x0 = np.where(self.lam.real > 0, self.li[i], 0.0)
            return self.V * np.exp(self.lam * (x - x0)), self.und / self.S
        P, p = self.R.flow(x, False)
        return P / self.S[:, None] * self.S[None, :], p / self.S

    def z(self, i, x):
        """weac-type solution matrix at positions x of segment i."""
        Y = np.empty((6, len(x)))
        for k, q in enumerate(x):
            A, a = self._map(i, q)
            Y[:, k] = (A @ self.c[i]).real + a
        Y = Y * self.S[:, None]
        return np.array([self.R.z(y) for y in Y.T]).T

    def gdif(self):
        """Differential release rates [mode I, mode II] (N/mm), averaged over the crack tips."""
        R, G = self.R, np.zeros(2)
        tips = [j for j in range(len(self.li) - 1) if self.ki[j] != self.ki[j + 1]]
        for j in tips:
            Z = self.z(j, [self.li[j]]) if self.ki[j] else self.z(j + 1, [0.0])
            G += 0.5 * np.array([R.sig(Z)[0]**2 / (2 * R.kn), R.tau(Z)[0]**2 / (2 * R.kt)])
        return G

    def ginc(self, before):
        """Closing work per crack length [mode I, mode II] (N/mm) against the uncracked solution `before`."""
        R, G, a = self.R, np.zeros(2), 0.0
        gx, gw = np.polynomial.legendre.leggauss(8)
        for i, on in enumerate(self.ki):
            l = self.li[i]
            if on or l == 0:
                continue
            a += l
            m = max(2, int(np.ceil(l * R.lam() / 3)))
            e = np.linspace(0, l, m + 1)
            x = ((e[1:] + e[:-1])[:, None] / 2 + (e[1:] - e[:-1])[:, None] / 2 * gx).ravel()
            w = ((e[1:] - e[:-1])[:, None] / 2 * gw).ravel()
            Z0, Z1 = before.z(i, x), self.z(i, x)
            G[0] += np.sum(w * R.sig(Z0) * -Z1[2])
            G[1] += np.sum(w * R.tau(Z0) * (Z1[0] + R.h / 2 * Z1[4] - R.t / 2 * Z1[3]))
        return G / (2 * a)
