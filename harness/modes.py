"""Independent basis of real spherical harmonics in float64.

A mode is (n, m, k) with degree n, order m and k = 0 (cos) or 1 (sin). The
Legendre functions are normalised such that all modes are of order 1. Values, zonal
and meridional derivatives are computed by recursion, without the code under
test.
"""
import numpy as np


class Basis:

    def __init__(self, lat, lon, nmax):
        """Latitudes and longitudes in degrees (1D)."""
        self.lat, self.lon, self.nmax = np.asarray(lat, float), np.asarray(lon, float), nmax
        x = np.sin(np.deg2rad(self.lat))
        c = np.cos(np.deg2rad(self.lat))
        c[np.abs(c) < 1e-14] = 0.
        self.c = c
        # R[n,m] = P[n,m] / cos(lat)^min(m,1): regular at the poles
        R = {}
        for m in range(nmax + 1):
            seed = np.ones_like(x)
            for j in range(1, m + 1):
                seed = seed * np.sqrt((2 * j + 1) / (2 * j)) * (c if j > 1 else 1.)
            R[m, m] = seed
            if m < nmax:
                R[m + 1, m] = np.sqrt(2 * m + 3) * x * R[m, m]
            for n in range(m + 2, nmax + 1):
                a = np.sqrt((4 * n * n - 1) / (n * n - m * m))
                b = np.sqrt(((n - 1)**2 - m * m) / (4 * (n - 1)**2 - 1))
                R[n, m] = a * (x * R[n - 1, m] - b * R[n - 2, m])
        self.R, self.x = R, x
        lam = np.deg2rad(self.lon)
        self.cosm = [np.cos(m * lam) for m in range(nmax + 1)]
        self.sinm = [np.sin(m * lam) for m in range(nmax + 1)]

    def _p(self, n, m):
        return self.R[n, m] * (self.c if m > 0 else 1.)

    def _dp(self, n, m):
        """dP/dlat = (f P[n-1] - n x P[n]) / cos(lat), regular form."""
        x, c = self.x, self.c
        prev = self.R[n - 1, m] if n - 1 >= m else 0.
        f = np.sqrt((2 * n + 1) / (2 * n - 1) * (n * n - m * m)) if n > 0 else 0.
        if m > 0:
            return f * prev - n * x * self.R[n, m]
        if n == 0:
            return np.zeros_like(x)
        return np.sqrt(n * (n + 1.)) * self._p(n, 1)

    def y(self, mode):
        n, m, k = mode
        return self._p(n, m)[:, None] * (self.cosm, self.sinm)[k][m][None, :]

    def dlon(self, mode):
        """1/cos(lat) d/dlon"""
        n, m, k = mode
        if m == 0:
            return np.zeros((self.lat.size, self.lon.size))
        trig = -self.sinm[m] if k == 0 else self.cosm[m]
        return m * self.R[n, m][:, None] * trig[None, :]

    def dlat(self, mode):
        n, m, k = mode
        return self._dp(n, m)[:, None] * (self.cosm, self.sinm)[k][m][None, :]

    def field(self, coefs):
        out = np.zeros((self.lat.size, self.lon.size))
        for mode, a in coefs.items():
            if a != 0.:
                out += a * self.y(mode)
        return out

    def grad(self, coefs, r):
        """(zonal, meridional) component of the gradient."""
        gx = np.zeros((self.lat.size, self.lon.size))
        gy = np.zeros_like(gx)
        for mode, a in coefs.items():
            if a != 0.:
                gx += a / r * self.dlon(mode)
                gy += a / r * self.dlat(mode)
        return gx, gy

    def wind(self, psi, chi, r):
        """Wind components from streamfunction and velocity potential coefficients."""
        px, py = self.grad(psi, r)
        cx, cy = self.grad(chi, r)
        return -py + cx, px + cy
