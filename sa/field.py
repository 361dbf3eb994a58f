"""Finite-field lanes used as value numbers.

A value number is a vector of K residues modulo a safe prime P.  Lane l is one
random valuation of the program's *atoms* (inputs, uninterpreted calls) in the
field; ring operations act lane-wise, so two rational expressions receive the
same vector iff they are the same rational function (up to a (deg/P)^K
error probability).  This is value numbering by random interpretation
(Gulwani & Necula, POPL 2004): nothing of the analysed program is executed,
floating point plays no part, sin/sqrt/interp1d/... never get evaluated.
"""
import hashlib
import os
import numpy as np
from fractions import Fraction

K = int(os.environ.get('SA_LANES', '1024'))
P = 2147483579            # safe prime: (P-1)/2 is prime, P = 3 mod 4
_P = np.uint64(P)
_U = np.uint64
LANE = np.arange(K, dtype=np.uint64)


_S30, _S27, _S31 = _U(30), _U(27), _U(31)
_M1, _M2 = _U(0xBF58476D1CE4E5B9), _U(0x94D049BB133111EB)


def _mix(z):
    z = (z ^ (z >> _S30)) * _M1
    z = (z ^ (z >> _S27)) * _M2
    return z ^ (z >> _S31)


_LANESALT = _mix(LANE * _U(0x9E3779B97F4A7C15) + _U(0x1234567 + 7919 * int(os.environ.get('SA_SEED', '0'))))
_tagcache = {}
_G = _U(0x9E3779B97F4A7C15)
_N = [_U(i) for i in range(32)]


def _tag(t):
    v = _tagcache.get(t)
    if v is None:
        v = _U(int.from_bytes(hashlib.blake2b(repr(t).encode(), digest_size=8).digest(), 'little'))
        _tagcache[t] = v
    return v


def H(tag, *fps):
    """lane-wise hash of a tag and lane vectors -> field elements"""
    h = _mix(_LANESALT ^ _tag(tag))
    for i, f in enumerate(fps):
        h = _mix(h * _G + (f + _N[i + 1] if i < 30 else f + _U(i + 1)))
    return h % _P


def add(a, b):
    return (a + b) % _P


def sub(a, b):
    return (a + (_P - b)) % _P


def neg(a):
    return (_P - a) % _P


def mul(a, b):
    return (a * b) % _P


_powcache = {}


def powi(a, n):
    n = n % (P - 1) if n >= 0 else n
    if n < 0:
        return powi(inv(a), -n)
    if n < 4:
        return _powi(a, n)
    k = (n, a.tobytes())
    r = _powcache.get(k)
    if r is None:
        if len(_powcache) > 50000:
            _powcache.clear()
        r = _powcache[k] = _powi(a, n)
        r.setflags(write=False)
    return r


def _powi(a, n):
    r = np.ones(K, dtype=np.uint64)
    b = a
    while n:
        if n & 1:
            r = mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


def inv(a):
    z = (a == 0)
    r = powi(a, P - 2)
    if z.any():
        r = np.where(z, H('inf'), r)
    return r


_SQ = (P + 1) // 4


def powq(a, q):
    """a**q for a Fraction q, multiplicative in a"""
    n, d = q.numerator, q.denominator
    e = n % (P - 1)
    while d % 2 == 0:
        e = e * _SQ % (P - 1)
        d //= 2
    e = e * pow(d, -1, P - 1) % (P - 1)
    return powi(a, e)


def chi(a):
    """Legendre symbol as field element (+1 / P-1; 0 -> 1)"""
    s = powi(a, (P - 1) // 2)
    return np.where(a == 0, _U(1), s)


_constcache = {}


def const(fr):
    v = _constcache.get(fr)
    if v is None:
        fr = Fraction(fr)
        x = fr.numerator % P * pow(fr.denominator % P, -1, P) % P
        v = np.full(K, x, dtype=np.uint64)
        _constcache[fr] = v
    return v


ZERO = const(Fraction(0))
ONE = const(Fraction(1))
