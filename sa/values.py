"""Abstract values of the analysis (see field.py for the value numbers)."""
import numpy as np
from fractions import Fraction
from . import field as F
from .field import H

SPECIAL = 32         # the first lanes fix orderings independently of the threshold sets: they identify groups across passes


class Ctx:
    """state shared by all values of one analysis session"""
    def __init__(self):
        self.thresholds = {}      # group key -> set(Fraction)
        self.strdom = {}          # key -> set(str)
        self.params = {}          # atom key -> representative Fraction (ordered thresholds)
        self.inv = {}             # atom key -> (kind, Num)
        self.invlane = {}         # lane, residue of an inverse function -> (kind, residue of the argument, negated)
        self.lens = {}            # key of an array built element by element -> its length
        self.groups = []          # persistent comparison groups: [special lanes, live special lanes]
        self.pgroups = None       # groups of the current pass
        self.pcache = {}
        self.nears = []           # arguments of a second call that on some lanes differ little from the first: (key, sign, atom, old)
        self.logs = []            # independent arguments of logarithms
        self.logval = {}
        self.ties = {}            # canonical difference -> its sign on every lane, of the comparisons made in this run
        self.epoch = 0            # pass number
        self.frozen_thr = {}
        self.frozen_str = {}

    def freeze(self):
        self.frozen_thr = {k: sorted(v) for k, v in self.thresholds.items()}
        self.frozen_str = {k: sorted(v) for k, v in self.strdom.items()}


CTX = Ctx()


def reset_ctx():
    CTX.__init__()


_W = np.array([(0x9E3779B97F4A7C15 * (2 * i + 1) ** 3 + 0x632BE59BD9B4E019) % 2**64 | 1 for i in range(F.K)], dtype=np.uint64)


def key(fp):
    """64-bit name of a lane vector"""
    return int((fp * _W).sum(dtype=np.uint64))


def skey(fp):
    """the same, of the grouping lanes only (stable across passes)"""
    return int((fp[:SPECIAL] * _W[:SPECIAL]).sum(dtype=np.uint64))


LIVE = [None]             # callable: lanes on which the current program point is reached


class Val:
    __slots__ = ()


class Num(Val):
    __slots__ = ('fp', 'const', '_lin', 'rad', 'node', 'rank', 'isint', 'idt')     # idt: array of integers/booleans/singles

    def __init__(self, fp, const=None, lin=None, rad=None, node=None, rank=0, isint=False):
        self.fp = fp
        self.const = const
        self.rad = rad
        self.node = node
        self.rank = rank
        self.isint = isint
        self._lin = lin

    @property
    def lin(self):
        l = self._lin
        if l is None:
            l = self._lin = (self.const, {}) if self.const is not None else atomlin(self.fp)
        return l

    def __repr__(self):
        return show(self)


class BoolV(Val):
    __slots__ = ('t', 'fp', 'const', 'rank', 'node')

    def __init__(self, t, fp=None, const=None, rank=0, node=None):
        self.t = t
        self.fp = np.where(t, F.ONE, F.ZERO)     # the truth value itself: the same however the predicate is written
        self.const = const
        self.rank = rank
        self.node = node


class Str(Val):
    """string: tuple of parts, each either str or (fp, fmt)"""
    __slots__ = ('parts', 'fp')

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if p == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)
        fps = []
        tags = []
        for p in self.parts:
            if isinstance(p, str):
                tags.append(p)
            else:
                tags.append(('v', p[1]))
                fps.append(p[0])
        self.fp = H(('str', tuple(tags)), *fps)

    @property
    def const(self):
        if not self.parts:
            return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None


class NoneT(Val):
    fp = H('None')

    def __repr__(self):
        return 'None'


NONE = NoneT()


class UndefT(Val):
    fp = H('Undef')

    def __repr__(self):
        return 'Undef'


UNDEF = UndefT()


class Tup(Val):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)


class Arr(Val):
    """numpy array with statically known first dimension"""
    __slots__ = ('e', 'idt')

    def __init__(self, e):
        self.e = tuple(e)


class PyList(Val):
    """mutable list; .c is Tup (known) or Num (opaque)"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c


class PyDict(Val):
    __slots__ = ('d', 'opaque', 'assoc')

    def __init__(self, d=None):
        self.d = dict(d or {})
        self.opaque = None
        self.assoc = ()             # (lanes, key value number, key, value) stored under symbolic keys


class ObjDict(Val):
    """the attribute dictionary of an object"""
    def __init__(self, o):
        self.o = o


class SliceV(Val):
    def __init__(self, parts):
        self.parts = tuple(parts)


class Obj(Val):
    _n = 0

    def __init__(self, cls, lazy=None, attrs=None):
        self.cls = cls
        self.lazy = lazy            # input path prefix, or None for constructed objects
        self.attrs = dict(attrs or {})
        self.sym = {}               # initial symbols handed out for lazy attributes
        self.cond = set()           # attributes not definitely assigned
        self.input = False          # part of the input state (exists before any loop)
        Obj._n += 1
        self.id = Obj._n


class Func(Val):
    def __init__(self, node, mod, env=None, cls=None):
        self.node = node
        self.mod = mod
        self.env = env              # enclosing local env (closure) or None
        self.cls = cls
        self.attrs = {}
        self.defaults = None        # evaluated defaults for closures
        self.bare = False           # decorators already applied

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')


class Bound(Val):
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class ClassV(Val):
    def __init__(self, cls):
        self.cls = cls


class Ext(Val):
    """anything outside the repository, by dotted path"""
    def __init__(self, path):
        self.path = path


class ExtM(Val):
    """method of an opaque/structured value"""
    def __init__(self, recv, name, lval=None):
        self.recv = recv
        self.name = name
        self.lval = lval


class Iter(Val):
    """range/zip/enumerate/map descriptors"""
    def __init__(self, kind, args):
        self.kind = kind
        self.args = args


class Native(Val):
    """a callable given by the library"""
    def __init__(self, name, fn, fps=()):
        self.fn = fn
        self.fp = H(('native', name), *fps)


class Manager(Val):
    """call of a generator function used as a context manager"""

    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class PltV(Val):
    """part of a plot. ign: anything only about style; fig: (n,); ax: (n, panel); cbar, cbarax, artist: (n, panel)"""

    def __init__(self, kind, ident=()):
        self.kind = kind
        self.ident = ident
        self.fp = H(('plt', kind, ident))


class SuperV(Val):
    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


class Alt(Val):
    """lane-dependent value of mixed kind: list of (mask, value)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


# ---------------------------------------------------------------- Num algebra

def atomlin(fp):
    k1 = key(fp)
    n = F.neg(fp)
    k2 = key(n)
    if k1 <= k2:
        return (Fraction(0), {k1: (Fraction(1), fp)})
    return (Fraction(0), {k2: (Fraction(-1), n)})


def C(x):
    fr = x if isinstance(x, Fraction) else Fraction(x)
    return Num(F.const(fr), const=fr, isint=(fr.denominator == 1))


def fromfloat(x):
    if isinstance(x, int):
        return C(Fraction(x))
    import math
    if math.isinf(x) or math.isnan(x):
        return Num(H(('fl', repr(x))))
    r = C(Fraction(repr(x)))
    r.isint = False
    return r


PI = Num(H('pi'))
PIK = list(PI.lin[1])[0]
PISGN = PI.lin[1][PIK][0]


def atom(tag, *args, rank=0, node=None):
    return Num(H(tag, *[fpof(a) for a in args]), rank=rank,
               node=node or ('atom', tag, tuple(args)))


def jrank(*nums):
    r, unk = 0, False
    for n in nums:
        if n.rank is None:
            if n.const is not None and len(nums) > 1:
                unk = True
                continue
            return None
        r = max(r, n.rank)
    return None if unk and r == 0 else r


def _lin_add(a, b, s=1):
    c = a[0] + s * b[0]
    d = dict(a[1])
    for k, (co, fp) in b[1].items():
        if k in d:
            nc = d[k][0] + s * co
            if nc == 0:
                del d[k]
            else:
                d[k] = (nc, fp)
        else:
            d[k] = (s * co, fp)
    return c, d


def n_add(a, b, s=1):
    if a.const is not None and b.const is not None:
        r = C(a.const + s * b.const)
        r.rank = jrank(a, b)
        r.isint = a.isint and b.isint
        if r.rank != 0:
            r.node = ('ew', 'add' if s == 1 else 'sub', (a, b))
        return r
    fp = F.add(a.fp, b.fp) if s == 1 else F.sub(a.fp, b.fp)
    lin = _lin_add(a.lin, b.lin, s)
    const = None
    if not lin[1]:
        const = lin[0]
    elif len(lin[1]) > 12:
        lin = None
    if (fp == fp[0]).all() and const is None and (fp == 0).all():
        const = Fraction(0)
        lin = (const, {})
    rad = None
    if const is None:
        if a.rad and b.rad and a.rad[1].keys() == b.rad[1].keys() \
                and all(b.rad[1][k][1] == f for k, (_, f) in a.rad[1].items()):
            # a sum of multiples of one and the same root
            rad = (F.add(a.rad[0], b.rad[0]) if s == 1 else F.sub(a.rad[0], b.rad[0]), a.rad[1])
        elif b.const == 0:
            rad = a.rad
        elif a.const == 0 and b.rad:
            rad = b.rad if s == 1 else (F.neg(b.rad[0]), b.rad[1])
    return Num(fp, const=const, lin=lin, rad=rad, node=('ew', 'add' if s == 1 else 'sub', (a, b)),
               rank=jrank(a, b), isint=a.isint and b.isint)


def n_sub(a, b):
    return n_add(a, b, -1)


def _scale(lin, k):
    if k == 0:
        return (Fraction(0), {})
    return (lin[0] * k, {kk: (co * k, fp) for kk, (co, fp) in lin[1].items()})


def _single(lin):
    if lin[0] == 0 and len(lin[1]) == 1:
        (k, (co, fp)), = lin[1].items()
        return co, fp
    return None


def _radfp(cof, rad):
    fp = cof
    for _, (b, f) in rad.items():
        fp = F.mul(fp, F.powq(b, f))
    return fp


def _radmul(a, b):
    ca, ra = a.rad if a.rad else (a.fp, {})
    cb, rb = b.rad if b.rad else (b.fp, {})
    cof = F.mul(ca, cb)
    rad = dict(ra)
    for k, (base, f) in rb.items():
        if k in rad:
            nf = rad[k][1] + f
            if nf >= 1:
                cof = F.mul(cof, base)
                nf -= 1
            if nf == 0:
                del rad[k]
            else:
                rad[k] = (base, nf)
            continue
        for k2, (b2, f2) in list(rad.items()):          # the same root on some lanes (values of different branches)
            if f + f2 == 1:
                eq = (base == b2) & (base != F.ONE)
                if eq.any():
                    cof = np.where(eq, F.mul(cof, base), cof)
                    base, b2 = np.where(eq, F.ONE, base), np.where(eq, F.ONE, b2)
                    del rad[k2]
                    if not (b2 == F.ONE).all():
                        rad[b2.tobytes()] = (b2, f2)
        if not (base == F.ONE).all():
            k = base.tobytes()
            if k in rad:
                cof = F.mul(cof, F.powq(base, f))
            else:
                rad[k] = (base, f)
    return cof, rad


def _radsel(mask, a, b):
    """roots of a value that is a on some lanes and b on the others"""
    if not (a.rad or b.rad):
        return None
    ca, ra = a.rad if a.rad else (a.fp, {})
    cb, rb = b.rad if b.rad else (b.fp, {})
    rad = {}
    cof = np.where(mask, ca, cb)
    for m, rd, other in ((mask, ra, rb), (~mask, rb, ra)):
        for k, (base, f) in rd.items():
            if k in other and other[k][1] == f:
                rad[k] = (base, f)
                continue
            base = np.where(m, base, F.ONE)
            if (base == F.ONE).all():
                continue
            kk = base.tobytes()
            if kk in rad:
                cof = F.mul(cof, F.powq(base, f))
            else:
                rad[kk] = (base, f)
    return (cof, rad) if rad else None


def n_mul(a, b):
    rk = jrank(a, b)
    isint = a.isint and b.isint
    node = ('ew', 'mul', (a, b))
    if a.const is not None and b.const is not None:
        r = C(a.const * b.const)
        r.rank, r.isint = rk, isint
        if rk != 0:
            r.node = node
        return r
    if a.const is not None or b.const is not None:
        k, x = (a.const, b) if a.const is not None else (b.const, a)
        if k == 0:
            r = C(0)
            r.rank = rk
            r.node = node if rk != 0 else None
            return r
        fp = F.mul(F.const(k), x.fp)
        rad = None
        if x.rad:
            rad = (F.mul(F.const(k), x.rad[0]), x.rad[1])
        return Num(fp, lin=_scale(x.lin, k), rad=rad, node=node, rank=rk, isint=isint)
    rad = None
    if a.rad or b.rad:
        cof, rd = _radmul(a, b)
        fp = _radfp(cof, rd)
        rad = (cof, rd) if rd else None
    else:
        fp = F.mul(a.fp, b.fp)
    lin = None
    sa, sb = _single(a.lin), _single(b.lin)
    ka = sa[0] if sa else Fraction(1)
    kb = sb[0] if sb else Fraction(1)
    k = ka * kb
    if k != 1:
        m = F.mul(fp, F.inv(F.const(k)))
        lin = _scale(atomlin(m), k)
    for u, x in ((sa, b), (sb, a)):
        if u is not None and _halfturn(u[1]) and (x.lin[0] != 0 and x.lin[1] or len(x.lin[1]) > 1):
            lin = _turned(x.lin, u)     # a sum of angles changing its unit
            break
    return Num(fp, lin=lin, rad=rad, node=node, rank=rk, isint=isint)


_PIKEYS = []


def _halfturn(fp):
    if not _PIKEYS:
        _PIKEYS.extend([key(PI.fp), key(F.neg(PI.fp)), key(F.inv(PI.fp)), key(F.neg(F.inv(PI.fp)))])
    return key(fp) in _PIKEYS


def _turned(lin, u):
    c, d = Fraction(0), {}
    terms = [(lin[0], F.ONE)] if lin[0] else []
    for co, fp in terms + list(lin[1].values()):
        m = F.mul(fp, u[1])
        if (m == F.ONE).all():
            c += co * u[0]
            continue
        for kk, (c2, f2) in _scale(atomlin(m), co * u[0])[1].items():
            tot = c2 + (d[kk][0] if kk in d else 0)
            if tot:
                d[kk] = (tot, f2)
            else:
                d.pop(kk, None)
    return (c, d)


def n_inv(a):
    if a.const is not None:
        if a.const == 0:
            return Num(H('inf'), rank=a.rank)
        r = C(1 / a.const)
        r.rank = a.rank
        r.isint = False
        if a.rank != 0:
            r.node = ('ew', 'inv', (a,))
        return r
    rad = None
    if a.rad:
        cof, rd = a.rad
        cof = F.inv(cof)
        nr = {}
        for k, (b, f) in rd.items():
            cof = F.mul(cof, F.inv(b))
            nr[k] = (b, 1 - f)
        fp = _radfp(cof, nr)
        rad = (cof, nr)
    else:
        fp = F.inv(a.fp)
    lin = None
    s = _single(a.lin)
    if s and s[0] != 1:
        k = 1 / s[0]
        lin = _scale(atomlin(F.mul(fp, F.const(1 / k))), k)
    return Num(fp, lin=lin, rad=rad, node=('ew', 'inv', (a,)), rank=a.rank)


def n_div(a, b):
    return n_mul(a, n_inv(b))


def n_neg(a):
    return n_mul(C(-1), a)


def n_pow(a, b):
    rk = jrank(a, b)
    node = ('ew', 'pow', (a, b))
    if b.const is not None:
        q = b.const
        if q == 0:
            r = C(1)
            r.rank = rk
            return r
        if q == 1:
            return a
        if q.denominator == 1:
            n = q.numerator
            if abs(n) <= 64:
                base = a if n > 0 else n_inv(a)
                r = base
                for _ in range(abs(n) - 1):
                    r = n_mul(r, base)
                r = Num(r.fp, const=r.const, lin=r.lin, rad=r.rad, node=node, rank=rk, isint=a.isint and n > 0)
                return r
        # fractional
        if a.const is not None and a.const == 0:
            return a
        if a.rad:
            cof, rd = a.rad
            parts = [(cof, q)] + [(b_, f * q) for b_, f in rd.values()]
        else:
            parts = [(a.fp, q)]
        cof = F.ONE
        rad = {}
        for base, e in parts:
            n = e.numerator // e.denominator
            f = e - n
            if (base == F.ONE).all():
                continue
            cof = F.mul(cof, F.powi(base, n)) if n else cof
            if f:
                kk = base.tobytes()
                if kk in rad:
                    nf = rad[kk][1] + f
                    if nf >= 1:
                        cof = F.mul(cof, base)
                        nf -= 1
                    if nf:
                        rad[kk] = (base, nf)
                    else:
                        del rad[kk]
                else:
                    rad[kk] = (base, f)
        fp = _radfp(cof, rad)
        return Num(fp, rad=(cof, rad) if rad else None, node=node, rank=rk)
    return Num(H('pow', a.fp, b.fp), node=node, rank=rk)


def n_sqrt(a):
    return n_pow(a, C(Fraction(1, 2)))


def n_abs(a):
    if a.const is not None:
        r = C(abs(a.const))
        r.rank = a.rank
        r.isint = a.isint
        return r
    return Num(F.mul(a.fp, F.chi(a.fp)), node=('ew', 'abs', (a,)), rank=a.rank, isint=a.isint)


def n_sign(a):
    if a.const is not None:
        return C((a.const > 0) - (a.const < 0))
    return Num(F.chi(a.fp), node=('ew', 'sign', (a,)), rank=a.rank)


def _anymult(y):
    global _PIM
    if _PIM is None:
        _PIM = np.stack([F.mul(F.const(Fraction(q, 2)), PI.fp) for q in range(-4, 5)])
    return (_PIM == y).any()


_PIM = None


def _trig(a, want):
    """want 'sin' or 'cos'"""
    node = ('ew', want, (a,))
    c, d = a.lin
    d = dict(d)
    shift = 0           # in units of pi/2
    if PIK in d:
        q = d[PIK][0] * PISGN
        if (2 * q).denominator == 1:
            shift = int(2 * q) % 4
            del d[PIK]
    if not d and c == 0:
        s, co = C(0), C(1)
    else:
        sgn = 1
        if d:
            lead = d[min(d)][0]
        else:
            lead = c
        if lead < 0:
            sgn = -1
            c = -c
            d = {k: (-co, fp) for k, (co, fp) in d.items()}
        inv = None
        if c == 0 and len(d) == 1:
            (k, (co, fp)), = d.items()
            if co == 1 and k in CTX.inv:
                inv = CTX.inv[k]
        if inv and inv[0] in ('arccos', 'arcsin', 'arctan', 'arccos-', 'arcsin-', 'arctan-'):
            kind, x = inv
            if kind.endswith('-'):
                # the canonical atom is the negated angle
                kind = kind[:-1]
                sgn = -sgn
            if kind == 'arccos':
                co = x
                s = n_sqrt(n_sub(C(1), n_mul(x, x)))
            elif kind == 'arcsin':
                s = x
                co = n_sqrt(n_sub(C(1), n_mul(x, x)))
            else:
                co = n_inv(n_sqrt(n_add(C(1), n_mul(x, x))))
                s = n_mul(x, co)
        else:
            y = F.const(c)
            for k, (cf, fp) in d.items():
                y = F.add(y, F.mul(F.const(cf), fp))
            yn = F.neg(y)
            flip = yn < y
            yc = np.where(flip, yn, y)
            t = H('trig', yc)
            t2 = F.mul(t, t)
            den = F.inv(F.add(F.ONE, t2))
            sf = F.mul(F.add(t, t), den)
            cf_ = F.mul(F.sub(F.ONE, t2), den)
            if CTX.invlane:
                hit = [(l, CTX.invlane[l, v]) for l, v in enumerate(yc.tolist()) if (l, v) in CTX.invlane]
                if hit:
                    one = F.ONE
                    for kind in ('arccos', 'arcsin', 'arctan'):
                        ls = [l for l, (kd, _, _) in hit if kd == kind]
                        if not ls:
                            continue
                        xv = F.ZERO.copy()
                        neg_ = np.zeros(F.K, bool)
                        for l, (kd, xr, ng) in hit:
                            if kd == kind:
                                xv[l] = xr
                                neg_[l] = ng
                        if kind == 'arccos':
                            c1 = xv
                            s1 = F.powq(F.sub(one, F.mul(xv, xv)), Fraction(1, 2))
                        elif kind == 'arcsin':
                            s1 = xv
                            c1 = F.powq(F.sub(one, F.mul(xv, xv)), Fraction(1, 2))
                        else:
                            c1 = F.inv(F.powq(F.add(one, F.mul(xv, xv)), Fraction(1, 2)))
                            s1 = F.mul(xv, c1)
                        s1 = np.where(neg_, F.neg(s1), s1)
                        sel = np.zeros(F.K, bool)
                        sel[ls] = True
                        sf = np.where(sel, s1, sf)
                        cf_ = np.where(sel, c1, cf_)
            sf = np.where(flip, F.neg(sf), sf)
            if _anymult(y):
                for q in range(-4, 5):         # exact multiples of pi/2, lane by lane
                    e = y == F.mul(F.const(Fraction(q, 2)), PI.fp)
                    if e.any():
                        sf = np.where(e, F.const(Fraction([0, 1, 0, -1][q % 4])), sf)
                        cf_ = np.where(e, F.const(Fraction([1, 0, -1, 0][q % 4])), cf_)
            s = Num(sf, node=node, rank=a.rank)
            co = Num(cf_, node=node, rank=a.rank)
        if sgn < 0:
            s = n_neg(s)
    # sin(y + k pi/2)
    if want == 'cos':
        shift = (shift + 1) % 4
    r = [s, co, n_neg(s), n_neg(co)][shift]
    return Num(r.fp, const=r.const, lin=r.lin, rad=r.rad, node=node, rank=a.rank)


def n_sin(a):
    return _trig(a, 'sin')


def n_cos(a):
    return _trig(a, 'cos')


def n_tan(a):
    r = n_div(n_sin(a), n_cos(a))
    return Num(r.fp, const=r.const, lin=r.lin, rad=r.rad, node=('ew', 'tan', (a,)), rank=a.rank)


def _hyp(a, want):
    node = ('ew', want, (a,))
    if a.const == 0:
        return C(0) if want == 'sinh' else C(1)
    for fp, sg in ((a.fp, 1), (F.neg(a.fp), -1)):
        k = key(fp)
        if k in CTX.inv and CTX.inv[k][0] == 'arcsinh' and want != 'exp':
            x = CTX.inv[k][1]
            r = x if want == 'sinh' else n_sqrt(n_add(C(1), n_mul(x, x)))
            if sg < 0 and want == 'sinh':
                r = n_neg(r)
            return Num(r.fp, lin=r.lin, rad=r.rad, node=node, rank=a.rank)
    n = F.neg(a.fp)
    flip = n < a.fp
    t = np.where(a.fp == 0, F.ONE, H('hyp', np.where(flip, n, a.fp)))
    ti = F.inv(t)
    half = F.const(Fraction(1, 2))
    s = F.mul(half, F.sub(t, ti))
    co = F.mul(half, F.add(t, ti))
    if want == 'exp':
        f = np.where(flip, ti, t)
    elif want == 'cosh':
        f = co
    else:
        f = np.where(flip, F.neg(s), s)
    return Num(f, node=node, rank=a.rank)


def _invfn(kind):
    def f(a):
        odd = kind in ('arcsin', 'arctan', 'arcsinh', 'arctanh')
        if a.const == 0 and odd:
            return C(0)
        if odd:
            n = F.neg(a.fp)
            flip = n < a.fp
            h = np.where(a.fp == 0, F.ZERO, H(kind, np.where(flip, n, a.fp)))
            f_ = np.where(flip, F.neg(h), h)
        else:
            f_ = H(kind, a.fp)
            f_ = F.mul(f_, f_)         # arccos, arccosh: not negative
        r = Num(f_, node=('ew', kind, (a,)), rank=a.rank)
        (k, (co, _)), = r.lin[1].items()
        CTX.inv[k] = (kind if co == 1 else kind + '-', a)
        if kind in ('arccos', 'arcsin', 'arctan'):
            il = CTX.invlane
            for l, (v, x) in enumerate(zip(f_.tolist(), a.fp.tolist())):
                nv = F.P - v
                if nv < v:
                    il[l, nv] = (kind, x, True)
                else:
                    il[l, v] = (kind, x, False)
        return r
    return f


_LOSSY = {'floor', 'ceil', 'floordiv', 'int', 'round', 'single'}
_NEAR = np.arange(F.K) % 2 == 1


def near(x):
    """what a rounding operation sees of x: a small change of an argument disappears"""
    fp = x.fp
    for k, c0, f0, old in CTX.nears:
        t = x.lin[1].get(k)
        if t is not None:
            c = F.const(t[0] / c0)
            new = f0 if c0 == 1 else F.neg(f0)
            fp = np.where(_NEAR, F.add(fp, F.mul(c, F.sub(old, new))), fp)
    return fp


def set_near(pairs):
    CTX.nears = []
    for new, old in pairs:
        (k, (c0, f0)), = new.lin[1].items()
        CTX.nears.append((k, c0, f0, old.fp))


def _ufn(name):
    def f(*a):
        if name in _LOSSY and CTX.nears:
            return Num(H(name, near(a[0]), *[x.fp for x in a[1:]]), node=('ew', name, tuple(a)), rank=jrank(*a))
        return Num(H(name, *[x.fp for x in a]), node=('ew', name, tuple(a)), rank=jrank(*a))
    return f


def _ext(name):
    """maximum / minimum: one of the operands on every lane, in the order model of comparisons"""
    def f(*a):
        xs = []
        for x in a:
            for y in (x.node[2] if x.node is not None and x.node[:2] == ('ew', name) and x.const is None else (x,)):
                if not any((y.fp == z.fp).all() for z in xs):
                    xs.append(y)
        xs.sort(key=lambda x: x.fp.tolist())
        r = xs[0]
        for x in xs[1:]:
            lt = compare('lt', r, x)
            r = select(lt.t, x, r) if name == 'maximum' else select(lt.t, r, x)
        if len(xs) > 1 and r.const is None and not any(r is x for x in xs):
            r = Num(r.fp, lin=r.lin, rad=r.rad, node=('ew', name, tuple(xs)), rank=jrank(*xs))
        return r
    return f


def extremum(mask, a, b):
    """('maximum'|'minimum', lanes on which the two are equal) when `mask ? a : b` picks by comparing a with b"""
    if not CTX.ties:
        return None
    d = n_sub(a, b)
    if d.const is not None or not d.lin[1]:
        return None
    lead = d.lin[1][min(d.lin[1])][0]
    c3 = CTX.ties.get(key(F.mul(d.fp, F.inv(F.const(lead)))))
    if c3 is None:
        return None
    live = LIVE[0]() if LIVE[0] else np.ones(F.K, bool)
    nt = live & (c3 != 0)
    if not nt.any():
        return None
    for up in (True, False):
        if (mask == (c3 > 0 if up else c3 < 0))[nt].all():
            return 'maximum' if up == (lead > 0) else 'minimum', c3 == 0
    return None


EW = {
    'add': n_add, 'sub': n_sub, 'mul': n_mul, 'inv': n_inv, 'pow': n_pow, 'abs': n_abs, 'sign': n_sign,
    'sin': n_sin, 'cos': n_cos, 'tan': n_tan,
    'sinh': lambda a: _hyp(a, 'sinh'), 'cosh': lambda a: _hyp(a, 'cosh'), 'exp': lambda a: _hyp(a, 'exp'),
    'tanh': lambda a: n_div(_hyp(a, 'sinh'), _hyp(a, 'cosh')),
    'maximum': _ext('maximum'), 'minimum': _ext('minimum'),
}
for _k in ('arccos', 'arcsin', 'arctan', 'arcsinh', 'arctanh', 'arccosh'):
    EW[_k] = _invfn(_k)
for _k in ('floor', 'ceil', 'arctan2', 'mod', 'floordiv', 'int', 'isnan', 'apply', 'round', 'single', 'unsigned'):
    EW[_k] = _ufn(_k)


# ---- logarithms: additive over products.  A new argument is either a product of powers of earlier arguments (decided by
# linear algebra on discrete logarithms of a few lanes, then checked on all of them) or a new independent one.
_NLOG = 28
_Q = (F.P - 1) // 2
_BABY = {}


def _dlog(xs):
    """discrete logarithms modulo (P-1)/2, to the base 4, of the squares of the residues xs"""
    m = 1 << 15
    if not _BABY:
        t, v = np.empty(m, np.int64), 1
        for i in range(m):
            t[i] = v
            v = v * 4 % F.P
        o = np.argsort(t)
        _BABY['t'], _BABY['o'], _BABY['g'] = t[o], o, pow(v, -1, F.P)
    t, o, g = _BABY['t'], _BABY['o'], _BABY['g']
    cur = (xs.astype(np.int64) * xs.astype(np.int64)) % F.P
    out = np.full(len(xs), -1, np.int64)
    for k in range(_Q // m + 1):
        j = np.minimum(np.searchsorted(t, cur), m - 1)
        hit = (t[j] == cur) & (out < 0)
        if hit.any():
            out[hit] = (k * m + o[j[hit]]) % _Q
            if (out >= 0).all():
                break
        cur = cur * g % F.P
    return [int(x) for x in out]


def _ratmod(x, p):
    r0, r1, s0, s1 = p, x % p, 0, 1
    while r1 > 60:
        q = r0 // r1
        r0, r1 = r1, r0 - q * r1
        s0, s1 = s1, s0 - q * s1
    return Fraction(r1, s1) if s1 and abs(s1) <= 12 else None


def _logconst(c):
    if c <= 0:
        return Num(H('log', F.const(c)))
    r = C(0)
    for sg, n in ((1, c.numerator), (-1, c.denominator)):
        p = 2
        while n > 1:
            if p * p > n or p > 1000:
                p = n
            while n % p == 0:
                r = n_add(r, n_mul(C(sg), Num(H(('logp', p)) * np.uint64(0) + H(('logp', p))[0])))
                n //= p
            p += 1
    return r


def n_log(a):
    if a.const is not None:
        r = _logconst(a.const)
    else:
        r = _logvar(a)
    return Num(r.fp, const=r.const, lin=r.lin, node=('ew', 'log', (a,)), rank=a.rank)


def _logvar(a):
    ck = key(a.fp)
    B = CTX.logs
    if ck in CTX.logval:
        return CTX.logval[ck]
    s = slice(SPECIAL, SPECIAL + _NLOG)
    r = None
    if not (a.fp[s] == 0).any():
        d = _dlog(a.fp[s])
        v = [(x - d[0]) % _Q for x in d[1:]]
        co = [0] * len(B)              # reduce by the independent ones
        for row, piv, comb, _ in B:
            f = v[piv]
            if f:
                v = [(x - f * y) % _Q for x, y in zip(v, row)]
                co = [(x + f * y) % _Q for x, y in zip(co, comb + [0] * (len(co) - len(comb)))]
        if not any(v):
            es = [_ratmod(x, _Q) for x in co]
            if all(e is not None for e in es):
                den = 1
                for e in es:
                    den = den * e.denominator // np.gcd(den, e.denominator)
                den = int(den)
                lhs = F.powi(a.fp, den)
                for e, (_, _, _, y) in zip(es, B):
                    if e:
                        lhs = F.mul(lhs, F.powi(y.fp, int(-e * den)))
                c = _ratrec(int(lhs[SPECIAL]))
                if (lhs == lhs[SPECIAL]).all() and c is not None and c > 0:
                    r = n_mul(C(Fraction(1, den)), _logconst(c))
                    for e, (_, _, _, y) in zip(es, B):
                        if e:
                            r = n_add(r, n_mul(C(e), Num(H('log', y.fp))))
        elif len(B) < _NLOG - 4:
            piv = next(i for i, x in enumerate(v) if x)
            iv = pow(v[piv], -1, _Q)
            comb = [-x * iv % _Q for x in co] + [iv]
            B.append(([x * iv % _Q for x in v], piv, comb, a))
    if r is None:
        r = Num(H('log', a.fp))
    CTX.logval[ck] = r
    return r


EW['log'] = n_log
EW['log10'] = lambda a: _logto(a, 10)
EW['log2'] = lambda a: _logto(a, 2)


def _logto(a, b):
    if a.const is not None and a.const > 0:
        for k in range(-12, 13):
            if a.const == Fraction(b) ** k:
                return C(k)
    r = n_div(n_log(a), _logconst(Fraction(b)))
    return Num(r.fp, lin=r.lin, rad=r.rad, node=('ew', 'log%d' % b, (a,)), rank=a.rank)


def _intfold(nm, f):
    g = EW[nm]

    def h(a, b):
        if isinstance(a, Num) and isinstance(b, Num) and a.const is not None and b.const not in (None, 0):
            return C(f(a.const, b.const))
        return g(a, b)
    EW[nm] = h


_intfold('mod', lambda a, b: a % b)
_intfold('floordiv', lambda a, b: Fraction(a // b))


# ---------------------------------------------------------------- fingerprints

def fpof(v):
    if isinstance(v, (Num, BoolV, Str, NoneT, UndefT)):
        return v.fp
    if isinstance(v, (Tup, Arr)):
        return H(('seq', len(v.e)), *[fpof(x) for x in v.e])
    if isinstance(v, PyList):
        return fpof(v.c)
    if isinstance(v, ObjDict):
        return H('__dict__', fpof(v.o))
    if isinstance(v, SliceV):
        return H('slice', *[fpof(x) if x is not None else NONE.fp for x in v.parts])
    if isinstance(v, PyDict):
        items = sorted(v.d.items(), key=lambda kv: repr(kv[0]))
        fps = [fpof(x) for _, x in items]
        if v.opaque is not None:
            fps.append(fpof(v.opaque))
        for m, kf, k, x in v.assoc:
            fps.append(np.where(m, H('assoc', kf, fpof(x)), np.uint64(0)))
        return H(('dict', tuple(repr(k) for k, _ in items), v.opaque is not None), *fps)
    if isinstance(v, Alt):
        out = H('altnone')
        for m, x in v.alts:
            out = np.where(m, fpof(x), out)
        return out
    if isinstance(v, Obj):
        if v.lazy is not None:
            ch = [(k, x) for k, x in v.attrs.items() if not (k in v.sym and v.sym[k] is x)]
            return H(('obj', v.cls.name, v.lazy))
        return H(('objnew', v.cls.name if v.cls else '?'))
    if isinstance(v, Ext):
        return H(('extref', v.path))
    if isinstance(v, ClassV):
        return H(('class', v.cls.name))
    if isinstance(v, (Func, Bound)):
        from . import core
        return core.INTERP.funcfp(v)
    if isinstance(v, Iter):
        return H(('iter', v.kind), *[fpof(x) for x in v.args])
    if isinstance(v, ExtM):
        return H(('extm', v.name), fpof(v.recv))
    if isinstance(v, (PltV, Native)):
        return v.fp
    return H(('val', type(v).__name__))


def same(a, b):
    """lanes (bool array, special lanes forced True) on which a and b agree"""
    r = fpof(a) == fpof(b)
    r[:SPECIAL] = True
    return r


def selrank(a, b):
    for x, y in ((a, b), (b, a)):
        if x.rank is None:
            # a loop symbol of unknown kind takes after the value it is merged with
            return y.rank if x.node is not None and x.node[0] == 'loopsym' else None
    return max(a.rank, b.rank)


def select(mask, a, b):
    """per lane: a where mask else b"""
    if a is b:
        return a
    if mask.all():
        return a
    if not mask.any():
        return b
    if isinstance(a, Num) and isinstance(b, Num):
        if a.fp is b.fp or (a.fp == b.fp).all():
            return a if (a.rank is not None) else b
        ext = extremum(mask, a, b)
        if ext is not None:
            if (F.add(a.fp, b.fp) == 0).all():
                r = n_abs(a)
                return r if ext[0] == 'maximum' else n_neg(r)
            f = np.where(ext[1], np.minimum(a.fp, b.fp), np.where(mask, a.fp, b.fp))
            return Num(f, node=('ew', ext[0], (a, b)), rank=a.rank if a.rank == b.rank else selrank(a, b))
        return Num(np.where(mask, a.fp, b.fp), node=('sel', mask, (a, b)), rad=_radsel(mask, a, b),
                   rank=a.rank if a.rank == b.rank else selrank(a, b))
    if isinstance(a, BoolV) and isinstance(b, BoolV):
        return BoolV(np.where(mask, a.t, b.t), np.where(mask, a.fp, b.fp),
                     a.const if a.const == b.const else None,
                     rank=a.rank if a.rank == b.rank else None)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.e) == len(b.e):
        return Tup([select(mask, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.e) == len(b.e):
        return Arr([select(mask, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Str) and isinstance(b, Str) and a.parts == b.parts and a.const is not None:
        return a
    if isinstance(a, Arr) and isinstance(b, Num) or isinstance(a, Num) and isinstance(b, Arr):
        # vector vs opaque array: make it element-wise when the opaque side allows
        pass
    alts = []
    left = mask
    for v, m in ((a, mask), (b, ~mask)):
        if isinstance(v, Alt):
            for mm, x in v.alts:
                q = mm & m
                if q.any():
                    alts.append((q, x))
        else:
            alts.append((m, v))
    # merge equal kinds
    out = []
    for m, x in alts:
        for i, (m2, y) in enumerate(out):
            if x is y:
                out[i] = (m2 | m, y)
                break
            if isinstance(x, Num) and isinstance(y, Num) or isinstance(x, BoolV) and isinstance(y, BoolV) or \
               isinstance(x, Tup) and isinstance(y, Tup) and len(x.e) == len(y.e) or \
               isinstance(x, Arr) and isinstance(y, Arr) and len(x.e) == len(y.e) or \
               isinstance(x, Str) and isinstance(y, Str) and x.parts == y.parts and x.const is not None:
                # lanes outside m|m2 are don't-care here
                out[i] = (m2 | m, select(m, x, y))
                break
        else:
            out.append((m, x))
    if len(out) == 1:
        return out[0][1]
    return Alt(out)


def _ratrec(x):
    """residue -> Fraction with small numerator and denominator, or None"""
    r0, r1, s0, s1 = F.P, x % F.P, 0, 1
    while r1 > 30000:
        q = r0 // r1
        r0, r1 = r1, r0 - q * r1
        s0, s1 = s1, s0 - q * s1
    if s1 == 0 or abs(s1) > 30000:
        return None
    return Fraction(r1, s1)


class PassGroups:
    """comparison groups of one pass: expressions up to x -> alpha*x + beta"""
    def __init__(self):
        self.n = 0
        self.B = np.zeros((16, F.K), np.uint64)
        self.L = np.zeros((16, F.K), bool)
        self.gid = []

    def find(self, fp, live):
        """(index, alpha, beta) with fp = alpha*base + beta on the common live lanes"""
        if not self.n:
            return None
        n = self.n
        return _match(self.B[:n], self.L[:n], fp, live)

    def add(self, fp, live, gid):
        if self.n == len(self.B):
            self.B = np.concatenate([self.B, np.zeros_like(self.B)])
            self.L = np.concatenate([self.L, np.zeros_like(self.L)])
        self.B[self.n] = fp
        self.L[self.n] = live
        self.gid.append(gid)
        self.n += 1
        return self.n - 1


def _match(B, L, fp, live):
    P = F.P
    com = L & live
    cnt = com.sum(axis=1)
    # three or more common lanes: affine; fewer: equal up to sign
    for few in (False, True):
        rows = np.where((cnt < 3) & (cnt > 0) if few else cnt >= 3)[0]
        if not len(rows):
            continue
        if few:
            eq = (~com[rows] | (B[rows] == fp)).all(axis=1)
            ne = (~com[rows] | (B[rows] == F.neg(fp))).all(axis=1)
            w = np.where(eq)[0]
            if len(w):
                return int(rows[w[0]]), Fraction(1), Fraction(0)
            w = np.where(ne)[0]
            if len(w):
                return int(rows[w[0]]), Fraction(-1), Fraction(0)
            continue
        cc = com[rows]
        cs = cc.cumsum(axis=1)
        i = cc.argmax(axis=1)
        j = (cs >= 2).argmax(axis=1)
        k = (cs >= 3).argmax(axis=1)
        Br = B[rows]
        ar = np.arange(len(rows))
        lhs = F.mul(F.sub(fp[i], fp[j]), F.sub(Br[ar, i], Br[ar, k]))
        rhs = F.mul(F.sub(fp[i], fp[k]), F.sub(Br[ar, i], Br[ar, j]))
        for w in np.where(lhs == rhs)[0]:
            b = Br[w]
            m = cc[w]
            if (fp[m] == b[m]).all():
                return int(rows[w]), Fraction(1), Fraction(0)
            db = (int(b[i[w]]) - int(b[j[w]])) % P
            if db == 0:
                # look for two lanes that differ
                dif = np.where(m & (b != b[i[w]]))[0]
                if not len(dif):
                    continue
                j2 = dif[0]
                db = (int(b[i[w]]) - int(b[j2])) % P
            else:
                j2 = j[w]
            al = (int(fp[i[w]]) - int(fp[j2])) * pow(db, -1, P) % P
            be = (int(fp[i[w]]) - al * int(b[i[w]])) % P
            ra, rb = _ratrec(al), _ratrec(be)
            if ra is None or rb is None or ra == 0:
                continue
            t = F.add(F.mul(np.uint64(al), b), np.full(1, be, np.uint64))
            if (t[m] == fp[m]).all():
                return int(rows[w]), ra, rb
    return None


def affine(fp):
    """(group, alpha, beta) with fp = alpha*base + beta for the session's
    representative of fp's affine class; (None, None, value) for a constant"""
    live = LIVE[0]() if LIVE[0] else np.ones(F.K, bool)
    if not live.any():
        live = np.ones(F.K, bool)
    f0 = fp[live]
    if (f0 == f0[0]).all() and len(f0) > 3:
        v = _ratrec(int(f0[0]))
        if v is not None:
            return None, None, v
    ck = (fp.tobytes(), live.tobytes())
    r = CTX.pcache.get(ck)
    if r is not None:
        return r
    pg = CTX.pgroups
    if pg is None:
        pg = CTX.pgroups = PassGroups()
    m = pg.find(fp, live)
    if m is None:
        # new in this pass: link to the group of an earlier pass by the grouping lanes
        sp, sl = fp[:SPECIAL], live[:SPECIAL]
        base, al, be, gid = fp, Fraction(1), Fraction(0), None
        if CTX.groups and sl.any():
            B = np.stack([g[0] for g in CTX.groups])
            L = np.stack([g[1] for g in CTX.groups])
            q = _match(B, L, sp, sl)
            if q is not None:
                gid, al, be = q
                base = F.mul(F.sub(fp, F.const(be)), F.const(1 / al)) if (al != 1 or be != 0) else fp
        if gid is None:
            if sl.any():
                gid = len(CTX.groups)
                CTX.groups.append((sp.copy(), sl.copy()))
            else:
                gid = -1               # no identity across passes: thresholds are ordered independently
        pg.add(base, live, gid)
        r = (gid, al, be)
    else:
        r = (pg.gid[m[0]], m[1], m[2])
    CTX.pcache[ck] = r
    return r


def ordered(op, thr_c, rest):
    """(truth of thr_c + (the terms of rest) op 0 on every lane, scale of the canonical expression)"""
    if not rest:          # only ordered parameters
        t = {'lt': thr_c < 0, 'le': thr_c <= 0, 'eq': thr_c == 0}[op]
        return np.full(F.K, t), None
    lead = rest[min(rest)][0]
    rfp = F.ZERO
    for k, (co, fp) in rest.items():
        rfp = F.add(rfp, F.mul(F.const(co / lead), fp))
    T = -thr_c / lead
    # canonical representative of the expression up to x -> alpha*x + beta
    g, al, be = affine(rfp)
    if al is None:                     # constant after all
        v = be - T
        if lead < 0:
            v = -v
        t = {'lt': v < 0, 'le': v <= 0, 'eq': v == 0}[op]
        return np.full(F.K, t), None
    if al != 1 or be != 0:
        rfp = F.mul(F.sub(rfp, F.const(be)), F.const(1 / al))
        T = (T - be) / al
        lead = lead * al
    if g < 0:
        S = [T]
        hv = H('ord', rfp, F.const(T))
    else:
        CTX.thresholds.setdefault(g, set()).add(T)
        S = CTX.frozen_thr.get(g)
        if S is None or T not in S:
            S = [T] if CTX.epoch else sorted(CTX.thresholds[g])
        hv = H('ord', rfp)
    npos = 2 * len(S) + 1
    pos = (hv % np.uint64(npos)).astype(np.int64)
    it = 2 * S.index(T) + 1
    cmp3 = np.sign(pos - it)
    sp = (H('ord3', rfp, F.const(T)) % np.uint64(3)).astype(np.int64) - 1
    cmp3[:SPECIAL] = sp[:SPECIAL]
    ordered.cmp3 = cmp3 if al > 0 else -cmp3
    if lead < 0:
        cmp3 = -cmp3
    return {'lt': cmp3 < 0, 'le': cmp3 <= 0, 'eq': cmp3 == 0}[op], lead


def compare(op, a, b):
    """numeric comparison -> BoolV; op in lt le eq"""
    if op != 'eq':
        for i, x in enumerate((a, b)):
            if x.const is None and x.node is not None and x.node[0] == 'ew' and x.node[1] in ('maximum', 'minimum', 'abs'):
                ys = x.node[2] if x.node[1] != 'abs' else (x.node[2][0], n_neg(x.node[2][0]))
                ts = [(compare(op, y, b) if i == 0 else compare(op, a, y)).t for y in ys]
                both = (x.node[1] != 'minimum') == (i == 0)        # max(p, q) < b: both below; a < max(p, q): either above
                return BoolV((np.logical_and if both else np.logical_or).reduce(ts), rank=jrank(a, b))
    d = n_sub(a, b)
    rk = jrank(a, b)
    if d.const is not None:
        t = {'lt': d.const < 0, 'le': d.const <= 0, 'eq': d.const == 0}[op]
        tt = np.full(F.K, t)
        return BoolV(tt, const=t if rk == 0 else None, rank=rk)
    c, terms = d.lin
    par = [(co, CTX.params[k]) for k, (co, fp) in terms.items() if k in CTX.params]
    rest = {k: x for k, x in terms.items() if k not in CTX.params}
    n = max([len(v) for _, v in par], default=1)
    ts = [ordered(op, c + sum((co * v[i % len(v)] for co, v in par), Fraction(0)), rest) for i in range(n)]
    t, lead = ts[0]
    for i in range(1, n):
        t = np.where(np.arange(F.K) % n == i, ts[i][0], t)
    if lead is None:      # only ordered parameters or constants
        return BoolV(t, rank=rk)
    full = F.mul(d.fp, F.inv(F.const(lead)))
    if not par:
        CTX.ties[key(F.mul(d.fp, F.inv(F.const(rest[min(rest)][0]))))] = ordered.cmp3
    # structural value number of the predicate itself (for argmax(h > x) and the like)
    sg = 1 if lead > 0 else -1
    if op == 'eq':
        bfp = H('p_eq', full)
    elif op == 'lt':
        bfp = H(('p_lt', sg), full)
    else:                 # d <= 0  ==  not (-d < 0)
        bfp = F.sub(F.ONE, H(('p_lt', -sg), full))
    return BoolV(t, bfp, rank=rk)


def exists(t):
    """some element satisfies the condition whose truth for a generic element is t"""
    fp = H('exists', np.where(t, F.ONE, F.ZERO))
    return BoolV(fp % np.uint64(2) == 0, fp)


def bnot(b):
    if b.const is not None:
        return BoolV(~b.t, const=not b.const)
    return BoolV(~b.t, F.sub(F.ONE, b.fp), rank=b.rank)


def streq(sym, s):
    """symbolic scalar compared with string constant"""
    g = skey(sym.fp)
    CTX.strdom.setdefault(g, set()).add(s)
    S = CTX.frozen_str.get(g)
    if S is None or s not in S:
        S = sorted(CTX.strdom[g])
    hv = (H('strpick', sym.fp) % np.uint64(len(S) + 1)).astype(np.int64)
    t = hv == S.index(s)
    sp = H(('strspecial', s), sym.fp) % np.uint64(2) == 0
    t[:SPECIAL] = sp[:SPECIAL]
    return BoolV(t)


def as_bool_const(t):
    return BoolV(np.full(F.K, t), const=t)


def show(v, depth=3):
    """short human readable rendering of a value (reports only)"""
    if isinstance(v, Num):
        if v.const is not None:
            c = v.const
            return str(c) if c.denominator == 1 and abs(c) < 10**7 else '%g' % float(c)
        if v.node is None:
            return '#%x' % (int(v.fp[0]) & 0xffff)
        op = v.node[0]
        if op == 'in':
            return v.node[1]
        if depth == 0:
            return '…'
        if op == 'ew':
            o, a = v.node[1], v.node[2]
            s = [show(x, depth - 1) for x in a]
            sym = {'add': '+', 'sub': '-', 'mul': '*', 'pow': '**'}
            if o in sym:
                return '(%s %s %s)' % (s[0], sym[o], s[1])
            if o == 'inv':
                return '1/%s' % s[0]
            return '%s(%s)' % (o, ', '.join(s))
        if op == 'sel':
            return 'either(%s | %s)' % tuple(show(x, depth - 1) for x in v.node[2])
        if op == 'atom':
            return '%s(%s)' % (v.node[1] if isinstance(v.node[1], str) else v.node[1][0],
                               ', '.join(show(x, depth - 1) for x in v.node[2]))
        return op
    if isinstance(v, BoolV):
        return str(v.const) if v.const is not None else 'cond'
    if isinstance(v, Str):
        return repr(v.const) if v.const is not None else 'str(' + '+'.join(p if isinstance(p, str) else '{}' for p in v.parts) + ')'
    if isinstance(v, (Tup, Arr)):
        return '[%s]' % ', '.join(show(x, depth - 1) if depth else '…' for x in v.e[:8])
    if isinstance(v, PyList):
        return show(v.c, depth)
    if isinstance(v, Alt):
        return 'alt(%s)' % ' | '.join(show(x, depth - 1) if depth else '…' for _, x in v.alts)
    if isinstance(v, Obj):
        return '<%s %s>' % (v.cls.name if v.cls else '?', v.lazy or v.id)
    return type(v).__name__
