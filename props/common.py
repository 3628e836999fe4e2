"""shared helpers of the property files"""
import itertools
import math
import numpy as np
from symx.runner import *
from symx.arr import asobj


def hdr2(pix=0.01, extra=None):
    from astropy.io import fits
    h = fits.Header()
    h['CTYPE1'], h['CTYPE2'] = 'RA---TAN', 'DEC--TAN'
    h['CDELT1'], h['CDELT2'] = -pix, pix
    h['CRVAL1'], h['CRVAL2'] = 10.0, 0.0
    h['CRPIX1'], h['CRPIX2'] = 1.0, 1.0
    h['CUNIT1'], h['CUNIT2'] = 'deg', 'deg'
    h['BUNIT'] = 'K'
    for k, v in (extra or {}).items():
        h[k] = v
    return h


def hdr3(pix=0.01, dv=100.0, extra=None):
    h = hdr2(pix)
    h['CTYPE3'] = 'VELO-LSR'
    h['CDELT3'] = dv
    h['CRVAL3'] = 0.0
    h['CRPIX3'] = 1.0
    h['CUNIT3'] = 'm/s'
    for k, v in (extra or {}).items():
        h[k] = v
    return h


def val(q):
    return q.value if hasattr(q, 'unit') else q


def total(xs):
    """sum of scalars (symbolic or not)"""
    return A.fold_list(A.operator.add, 0.0, list(xs))


def mean(xs):
    xs = list(xs)
    return total(xs) / float(len(xs))


def sqrt(x):
    if is_sym(x):
        return s_sqrt(x)
    return float(np.sqrt(x))


def log10(x):
    return s_log(x, 10) if is_sym(x) else float(np.log10(x))


def ln(x):
    return s_log(x) if is_sym(x) else float(np.log(x))


def where(c, a, b):
    if is_sym(c):
        return ite(c, a, b)
    return a if c else b


def isnan(x):
    return s_isnan(x)


def dft_power(x, ky, kx):
    """|sum x exp(-2 pi i (ky y/ny + kx x/nx))|^2 from the definition"""
    ny, nx = x.shape
    re, im = [], []
    for y in range(ny):
        for xx in range(nx):
            f = Fraction(ky * y, ny) + Fraction(kx * xx, nx)
            c, s = cosf(f), cosf(f - Fraction(1, 4))
            re.append(x[y, xx] * c)
            im.append(x[y, xx] * s)
    a, b = total(re), total(im)
    return a * a + b * b


def dft_mag(x, ky, kx):
    """|DFT| at one frequency; the transform is real at zero and Nyquist frequencies"""
    ny, nx = x.shape
    if (2 * ky) % ny == 0 and (2 * kx) % nx == 0:
        re = [x[y, xx] * cosf(Fraction(ky * y, ny) + Fraction(kx * xx, nx))
              for y in range(ny) for xx in range(nx)]
        return abs(total(re))
    p = dft_power(x, ky, kx)
    return s_sqrt(p, nonneg=True) if is_sym(p) else math.sqrt(p)


def cosf(f):
    return float(A.cosr(f))


def objarr(shape):
    return np.empty(shape, dtype=object)


def pack(I, a):
    """object array -> SymArr / float array"""
    if I.sym:
        return asobj(a).view(SymArr)
    return a.astype(float)


def slope_ols(xs, ys):
    """ordinary least squares (intercept, slope), textbook formula"""
    n = float(len(xs))
    sx, sy = sum(xs), total(ys)
    sxx = sum(x * x for x in xs)
    sxy = total([x * y for x, y in zip(xs, ys)])
    den = n * sxx - sx * sx
    b = (sxy * n - sy * sx) / den
    return (sy - b * sx) / n, b
