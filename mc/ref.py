"""Boring reference models, written without looking like the code under test.

Legendre functions come from unnormalised integer recursions for the
polynomials Q_n^m(x) = d^m P_n / dx^m in 60-digit decimal arithmetic, so poles
need no special case:
    P_n^m = N_nm s^m Q_n^m,  dP/dtheta = N (m s^(m-1) x Q^m - s^(m+1) Q^(m+1)),
    m P/s = N m s^(m-1) Q^m,     N_nm = sqrt((2-delta_m0) (n-m)!/(n+m)!).
"""
import decimal
import functools
import math
from decimal import Decimal as D

import numpy as np

CTX = decimal.Context(prec=60, Emax=99999, Emin=-99999)
PI = D('3.14159265358979323846264338327950288419716939937510582097494459230781640628620899')


def dcos_dsin(theta_deg):
    """cos and sin of an angle in degrees (a float, taken exactly) in 60 digits."""
    with decimal.localcontext(CTX):
        x = D(theta_deg) * PI / 180
        x = x % (2*PI)
        c = s = D(0)
        t = D(1)
        k = 0
        while True:
            if k % 2 == 0:
                c += t if k % 4 == 0 else -t
            else:
                s += t if k % 4 == 1 else -t
            k += 1
            t = t * x / k
            if k > 10 and abs(t) < D(10)**-58:
                return +c, +s


@functools.lru_cache(maxsize=4096)
def legendre(nmax, theta_deg):
    """(P, dP, mP/sin) as float arrays [n, m] at one colatitude, Schmidt semi-normalised."""
    P = np.zeros((nmax+1, nmax+1))
    dP = np.zeros((nmax+1, nmax+1))
    mPs = np.zeros((nmax+1, nmax+1))
    with decimal.localcontext(CTX):
        if theta_deg == 0 or theta_deg == 180:
            x, s = D(1 if theta_deg == 0 else -1), D(0)
        else:
            x, s = dcos_dsin(float(theta_deg))
        # Q[m][n]
        Q = [[D(0)]*(nmax+2) for _ in range(nmax+2)]
        for m in range(nmax+1):
            q = D(1)
            for i in range(1, 2*m, 2):
                q *= i
            Q[m][m] = q
            for n in range(m+1, nmax+1):
                Q[m][n] = ((2*n-1)*x*Q[m][n-1] - (n+m-1)*Q[m][n-2])/(n-m)
        sp = [D(1)]
        for m in range(nmax+2):
            sp.append(sp[-1]*s)
        for n in range(nmax+1):
            f = D(1)   # (n-m)!/(n+m)!
            for m in range(n+1):
                if m > 0:
                    f = f / ((n-m+1)*(n+m))
                N = (f if m == 0 else 2*f).sqrt()
                qm, q1 = Q[m][n], Q[m+1][n]
                P[n, m] = float(N*sp[m]*qm)
                a = m*sp[m-1]*x*qm if m else D(0)
                dP[n, m] = float(N*(a - sp[m+1]*q1))
                mPs[n, m] = float(N*m*sp[m-1]*qm) if m else 0.0
    return P, dP, mPs


def nm_list(nmin, nmax, mmax=None):
    """Order of Gauss coefficients: (n, 0, 'c'), (n, 1, 'c'), (n, 1, 's'), ..."""
    mmax = nmax if mmax is None else mmax
    out = []
    for n in range(nmin, nmax+1):
        out.append((n, 0, 'c'))
        for m in range(1, min(n, mmax)+1):
            out += [(n, m, 'c'), (n, m, 's')]
    return out


def basis_field(nms, r, theta, phi, source='internal', a=6371.2):
    """Field components of every basis function at one point: array (3, len(nms))."""
    nmax = max(n for n, _, _ in nms)
    P, dP, mPs = legendre(nmax, float(theta))
    out = np.zeros((3, len(nms)))
    x = a/r
    for i, (n, m, k) in enumerate(nms):
        # longitude reduced exactly to keep large multiples accurate
        ph = math.radians(math.fmod(phi, 360.0))
        c, s = math.cos(m*ph), math.sin(m*ph)
        ang, der = (c, s) if k == 'c' else (s, -c)   # der: -(1/m) d(ang)/dphi
        if source == 'internal':
            f = x**(n+2)
            out[0, i] = (n+1)*f*P[n, m]*ang
        else:
            f = x**(1-n)
            out[0, i] = -n*f*P[n, m]*ang
        out[1, i] = -f*dP[n, m]*ang
        out[2, i] = f*mPs[n, m]*der
    return out


def field(coeffs, nms, r, theta, phi, source='internal', a=6371.2):
    return basis_field(nms, r, theta, phi, source, a) @ np.asarray(coeffs, float)


def potential(coeffs, nms, r, theta, phi, source='internal', a=6371.2):
    nmax = max(n for n, _, _ in nms)
    P, _, _ = legendre(nmax, float(theta))
    v = 0.0
    for g, (n, m, k) in zip(coeffs, nms):
        ang = math.cos(m*math.radians(phi)) if k == 'c' else math.sin(m*math.radians(phi))
        v += a*g*P[n, m]*ang*((a/r)**(n+1) if source == 'internal' else (r/a)**n)
    return v


def pp_eval(coeffs, breaks, t, nu=0):
    """nu-th derivative of the piecewise polynomial (order, pieces, dim) at time t; the last
    piece is closed, others right-open.  Zero length pieces are never selected unless alone."""
    c = np.asarray(coeffs, float)
    K, M = c.shape[:2]
    i = 0
    for j in range(M):
        if t >= breaks[j]:
            i = j
    while i > 0 and breaks[i+1] == breaks[i] and t == breaks[i]:
        i -= 1   # trailing empty piece
    x = t - breaks[i]
    return poly_eval(c[:, i], x, nu)


def poly_eval(c, x, nu=0):
    """sum_k c[k] x^(K-1-k), nu-th derivative."""
    K = c.shape[0]
    out = np.zeros(c.shape[1:])
    for k in range(K):
        p = K-1-k
        if p < nu:
            continue
        f = 1.0
        for j in range(nu):
            f *= p-j
        out = out + c[k]*f*x**(p-nu)
    return out


def bspline_basis(knots, order, j, x, nu=0, right=None):
    """Cox-de Boor recursion; right-continuous, closed at the last knot."""
    k = order - 1
    if nu > 0:
        if k == 0:
            return 0.0
        out = 0.0
        d1 = knots[j+k] - knots[j]
        d2 = knots[j+k+1] - knots[j+1]
        if d1 > 0:
            out += k/d1*bspline_basis(knots, order-1, j, x, nu-1, knots[-1])
        if d2 > 0:
            out -= k/d2*bspline_basis(knots, order-1, j+1, x, nu-1, knots[-1])
        return out
    if k == 0:
        if knots[j] <= x < knots[j+1]:
            return 1.0
        last = knots[-1]
        return 1.0 if (x == last and knots[j] < knots[j+1] == last) else 0.0
    out = 0.0
    d1 = knots[j+k] - knots[j]
    d2 = knots[j+k+1] - knots[j+1]
    if d1 > 0:
        out += (x - knots[j])/d1*bspline_basis(knots, order-1, j, x)
    if d2 > 0:
        out += (knots[j+k+1] - x)/d2*bspline_basis(knots, order-1, j+1, x)
    return out


def days_from_civil(y, m, d):
    """Days since 2000-01-01, proleptic Gregorian, integer arithmetic (any year)."""
    y -= m <= 2
    era = y // 400
    yoe = y - era*400
    doy = (153*(m + (-3 if m > 2 else 9)) + 2)//5 + d - 1
    doe = yoe*365 + yoe//4 - yoe//100 + doy
    return era*146097 + doe - 719468 - 10957


def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def lcg(n, seed=1, lo=-1.0, hi=1.0):
    """Fixed generic numbers (never random): a Weyl sequence of irrational multiples."""
    g = 0.6180339887498949
    h = 0.4142135623730951
    return np.array([lo + (hi-lo)*((0.5 + (i+1)*g + seed*h*(i+3) % 1) % 1) for i in range(n)])
