"""Models of builtins, numpy, scipy, copy, random ... used by the value numbering."""
import ast
import copy as _copymod
import math as _math
import numpy as np
from fractions import Fraction
from . import field as F
from .field import H
from .values import *
from . import values as V
from . import plots
from . import std

EWNAMES = {
    'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'arcsin': 'arcsin', 'arccos': 'arccos', 'arctan': 'arctan',
    'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh',
    'arcsinh': 'arcsinh', 'arctanh': 'arctanh', 'arccosh': 'arccosh', 'asinh': 'arcsinh', 'atanh': 'arctanh',
    'acosh': 'arccosh', 'exp': 'exp', 'log': 'log', 'log10': 'log10', 'log2': 'log2', 'floor': 'floor', 'ceil': 'ceil',
    'abs': 'abs', 'absolute': 'abs', 'fabs': 'abs', 'sign': 'sign', 'isnan': 'isnan',
}


def pyconst(v):
    if v is None:
        return NONE
    if v is True or v is False:
        return as_bool_const(v)
    if isinstance(v, (int, float)):
        return fromfloat(v)
    if isinstance(v, str):
        return Str([v])
    if isinstance(v, tuple):
        return Tup([pyconst(x) for x in v])
    return Num(H(('const', repr(v))))


def constkey(v):
    """(hashable,) for a statically known dict key"""
    if isinstance(v, Str) and v.const is not None:
        return (v.const,)
    if isinstance(v, Num) and v.const is not None:
        return (int(v.const) if v.const.denominator == 1 else float(v.const),)
    if isinstance(v, BoolV) and v.const is not None:
        return (v.const,)
    if v is NONE:
        return (None,)
    if isinstance(v, Tup):
        ks = [constkey(x) for x in v.e]
        if all(k is not None for k in ks):
            return (tuple(k[0] for k in ks),)
    return None


def num(I, v):
    if isinstance(v, Num):
        return v
    if isinstance(v, BoolV):
        if v.const is not None:
            return C(int(v.const))
        return Num(np.where(v.t, F.ONE, F.ZERO) if not v.rank else v.fp, rank=v.rank, node=('b2n', (v,)))
    if isinstance(v, PyList) and isinstance(v.c, Num):
        return v.c
    if isinstance(v, Alt):
        return I.lift(lambda x: num(I, x), v)
    return Num(fpof(v), rank=None, node=('opaque', (v,)))


def scalars(v):
    """scalar factors of an elementwise product: [(factor, exponent)], pulled out of sums where common to the terms"""
    if v.rank == 0:
        return [(v, 1)]
    nd = v.node
    if v.const is not None or nd is None or nd[0] != 'ew':
        return []
    op, a = nd[1], nd[2]
    if op == 'mul':
        return scalars(a[0]) + scalars(a[1])
    if op == 'inv':
        return [(x, -e) for x, e in scalars(a[0])]
    if op in ('add', 'sub'):
        l, r = scalars(a[0]), scalars(a[1])
        out = []
        for x, e in l:
            for i, (y, f) in enumerate(r):
                if e == f and (x.fp == y.fp).all():
                    out.append((x, e))
                    r = r[:i] + r[i + 1:]
                    break
        return out
    return []


def content(v, depth=12):
    """largest positive rational known to divide the value out of the way it is built"""
    if v.const is not None:
        return abs(v.const)
    nd = v.node
    if depth == 0 or nd is None or nd[0] != 'ew':
        return Fraction(1)
    op, a = nd[1], nd[2]
    if op == 'mul':
        return (content(a[0], depth - 1) or Fraction(1)) * (content(a[1], depth - 1) or Fraction(1))
    if op == 'inv':
        return 1 / (content(a[0], depth - 1) or Fraction(1))
    if op in ('add', 'sub'):
        p, q = content(a[0], depth - 1), content(a[1], depth - 1)
        if not p or not q:
            return p or q or Fraction(1)
        return Fraction(_math.gcd(p.numerator * q.denominator, q.numerator * p.denominator), p.denominator * q.denominator)
    return Fraction(1)


def factored(v):
    """(s, w) with v = s*w, s the scalar factor of the array v"""
    s = C(1)
    if not isinstance(v, Num) or v.const is not None:
        return s, v
    for x, e in scalars(v):
        if (x.fp != 0).all():
            s = n_mul(s, x if e == 1 else n_inv(x))
    w = n_mul(v, n_inv(s)) if s.const != 1 else v
    c = content(w)
    if c != 1:
        s = n_mul(s, C(c))
        w = n_mul(w, C(1 / c))
    return s, w


def cumtrapz(I, d):
    """linear in the ordinate and in the scale of the abscissa"""
    y, x = toarray(I, d['y']), toarray(I, d.get('x', NONE))
    ini = d.get('initial', NONE)
    if isinstance(y, BoolV):
        y = num(I, y)
    s = C(1)
    dx = d.get('dx', C(1))
    if ini is NONE or isinstance(ini, Num) and ini.const == 0:
        s, y = factored(y)
        if isinstance(x, Num):
            t, x = factored(x)
            s = n_mul(s, t)
        elif x is NONE and isinstance(dx, Num):
            s, dx = n_mul(s, dx), C(1)
    r = Num(H('cumtrapz', fpof(y), fpof(x), fpof(ini), fpof(dx)), rank=1, node=('atom', 'cumtrapz', (y, x, ini)))
    return r if s.const == 1 else n_mul(s, r)


def namespace():
    from .project import ClassInfo
    if not hasattr(namespace, 'cls'):
        namespace.cls = ClassInfo('SimpleNamespace', ast.parse('class SimpleNamespace:\n    pass').body[0], None)
    return namespace.cls


def toarray(I, v):
    if isinstance(v, PyList):
        return toarray(I, v.c)
    if isinstance(v, Tup):
        if not v.e:
            return Arr([])
        return Arr([toarray(I, x) if isinstance(x, (PyList, Tup)) else x for x in v.e])
    if isinstance(v, Alt):
        return I.lift(lambda x: toarray(I, x), v)
    if isinstance(v, Iter):
        k = iter_known(I, v)
        if k is not None:
            return Arr(k)
        return num(I, v)
    if isinstance(v, Obj):
        r = I.record(v)
        return v if r is None else toarray(I, r)
    return v


def flat(v):
    if isinstance(v, Arr) and v.e and all(isinstance(x, Arr) for x in v.e):
        return Arr([y for x in v.e for y in (flat(x).e if isinstance(flat(x), Arr) else (x,))])
    return v


def isseq(v):
    return isinstance(v, (Tup, PyList))


def rowcols(I, v):
    """columns of a table built row by row (n x m, m known), else None"""
    if isinstance(v, PyList):
        v = v.c
    if isinstance(v, Num) and v.node is not None and v.node[0] == 'odesol' and v.node[2] == 'xy' and v.node[1][3]:
        return [ode_comp(I, v.node[1], j) for j in range(v.node[1][3])]
    if not isinstance(v, Num) or v.node is None or v.node[0] != 'rows':
        return None
    e = v.node[1][0]
    if isinstance(e, PyList):
        e = e.c
    if not isinstance(e, (Tup, Arr)) or not e.e or not all(isinstance(x, (Num, BoolV)) for x in e.e):
        return None
    out = []
    for x in e.e:
        x = num(I, x)
        c = Num(x.fp, const=x.const, lin=x.lin, rad=x.rad, node=x.node, rank=(x.rank or 0) + 1)
        n = V.CTX.lens.get(key(v.fp))
        if n is not None and c.const is None:
            V.CTX.lens[key(c.fp)] = n
        out.append(c)
    return out


def partial(I, v, code):
    """the values of a sequence computed for some of the elements only (as many as the loop makes rounds)"""
    cs = rowcols(I, v)
    if cs is not None:
        return fromcols(I, [Num(H('partialmap', c.fp, code), rank=c.rank) for c in cs])
    return Num(H('partialmap', v.fp, code), rank=1)


def fromcols(I, cols):
    """the table with these columns"""
    es = []
    for c in cols:
        c = num(I, c)
        if not c.rank:
            return Num(H('transpose', fpof(Arr(cols))), rank=2, node=('transpose', (Arr(cols),)))
        es.append(Num(c.fp, const=c.const, lin=c.lin, rad=c.rad, node=c.node, rank=c.rank - 1))
    e = Arr(es)
    r = Num(fpof(e), rank=2, node=('rows', (e,)))
    if key(r.fp) not in V.CTX.lens and cols:
        c = num(I, cols[0])
        n = length(I, c)
        if not (n.fp == H('len', c.fp)).all():
            V.CTX.lens[key(r.fp)] = n
    return r


def map1(I, f, x):
    if isinstance(x, Alt):
        return I.lift(lambda y: map1(I, f, y), x)
    if isinstance(x, PyList):
        x = x.c
    cs = rowcols(I, x)
    if cs is not None:
        return fromcols(I, [f(c) for c in cs])
    if isinstance(x, (Arr, Tup)):
        return Arr([map1(I, f, y) for y in x.e])
    return f(num(I, x))


def mapn(I, f, *xs):
    for i, x in enumerate(xs):
        if isinstance(x, Alt):
            return I.lift(lambda *ys: mapn(I, f, *ys), *xs)
    xs = [x.c if isinstance(x, PyList) else x for x in xs]
    rc = [rowcols(I, x) for x in xs]
    if any(c is not None for c in rc):
        m = max([len(c) for c in rc if c is not None] + [len(x.e) for x in xs if isinstance(x, (Arr, Tup))])
        rc = [c * m if c is not None and len(c) == 1 else c for c in rc]
        if all(c is not None and len(c) == m or isinstance(x, (Arr, Tup)) and len(x.e) == m and not any(isinstance(y, (Arr, Tup)) for y in x.e)
               or isinstance(x, Num) and not x.rank or isinstance(x, BoolV) and not x.rank for x, c in zip(xs, rc)):
            return fromcols(I, [mapn(I, f, *[c[i] if c is not None else x.e[i] if isinstance(x, (Arr, Tup)) else x for x, c in zip(xs, rc)]) for i in range(m)])
    ns = {len(x.e) for x in xs if isinstance(x, (Arr, Tup))}
    if ns:
        n = max(ns)
        # broadcast: a column of vectors vs vector
        deep = any(isinstance(x, (Arr, Tup)) and any(isinstance(y, (Arr, Tup)) for y in x.e) for x in xs)
        out = []
        for i in range(n):
            row = []
            for x in xs:
                if isinstance(x, (Arr, Tup)):
                    is_deep = any(isinstance(y, (Arr, Tup)) for y in x.e)
                    if deep and not is_deep and len(x.e) == n and any(
                            isinstance(z, (Arr, Tup)) and isinstance(z.e[0], (Arr, Tup)) for z in xs if z is not x):
                        row.append(x)       # (n,m) op (m,): broadcast along rows
                    elif len(x.e) == 1:
                        row.append(x.e[0])
                    else:
                        row.append(x.e[i] if i < len(x.e) else C(0))
                else:
                    row.append(x)
            out.append(mapn(I, f, *row))
        return Arr(out)
    return f(*[num(I, x) for x in xs])


STRM = {'upper', 'lower', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'swapcase', 'casefold', 'replace', 'split', 'rsplit', 'partition',
        'rpartition', 'removeprefix', 'removesuffix', 'startswith', 'endswith', 'isdigit', 'isalpha', 'find', 'rfind', 'count', 'zfill', 'ljust',
        'rjust', 'center', 'splitlines'}


def strparts(I, v, fmt):
    if isinstance(v, Str) and fmt == '':
        return list(v.parts)
    if isinstance(v, Str) and v.const is not None and fmt != '?':
        try:
            return [format(v.const, fmt)]
        except ValueError:
            pass
    if isinstance(v, Num) and v.const is not None and fmt == '' and v.isint:
        return [str(int(v.const))]
    return [(V.near(v) if isinstance(v, Num) and fmt not in ('', '?') else fpof(v), fmt)]


def binop(I, op, a, b, node):
    if isinstance(a, Str) or isinstance(b, Str):
        if op == 'Add':
            pa = a.parts if isinstance(a, Str) else [(fpof(a), '')]
            pb = b.parts if isinstance(b, Str) else [(fpof(b), '')]
            return Str(list(pa) + list(pb))
        if op == 'Mult':
            x, n = (a, b) if isinstance(a, Str) else (b, a)
            if isinstance(n, Num) and n.const is not None and n.const.denominator == 1 and abs(n.const) < 10000:
                return Str(list(x.parts) * max(0, int(n.const)))
        if op == 'Mod' and isinstance(a, Str) and a.const is not None:
            vals = list(b.e) if isinstance(b, Tup) else [b]
            import re
            parts, pos, i = [], 0, 0
            for m in re.finditer(r'%[-+0-9.]*([sdfgeri])', a.const):
                parts.append(a.const[pos:m.start()])
                pos = m.end()
                if i < len(vals):
                    parts.extend(strparts(I, vals[i], '' if m.group(0) in ('%s', '%d', '%i') else m.group(0)[1:]))
                i += 1
            parts.append(a.const[pos:])
            return Str(parts)
        return Num(H(('strop', op), fpof(a), fpof(b)))
    if isseq(a) and isseq(b) and op == 'Add':
        return PyList(seqadd(I, a, b)) if isinstance(a, PyList) else seqadd(I, a, b)
    if op == 'Mult' and (isseq(a) or isseq(b)):
        s, n = (a, b) if isseq(a) else (b, a)
        k = I.known(s)
        if isinstance(n, Num) and n.const is not None and k is not None and n.const.denominator == 1 and not isinstance(s, Arr):
            return PyList(Tup(list(k) * int(n.const)))
        if isinstance(n, Num) and k is not None and len(k) == 1:
            e = num(I, k[0])
            return PyList(Num(e.fp, const=e.const, lin=e.lin, rank=1, node=('atom', 'fill', (n,))))
        return Num(H('seqmul', fpof(a), fpof(b)), rank=1)
    if op == 'MatMult':
        return matmul(I, a, b)
    if op in ('BitAnd', 'BitOr', 'BitXor') and isinstance(a, BoolV) != isinstance(b, BoolV):
        a, b = [V.as_bool_const(x.const == 1) if isinstance(x, Num) and x.const in (0, 1) else x for x in (a, b)]
    if isinstance(a, BoolV) and isinstance(b, BoolV) and op in ('BitAnd', 'BitOr', 'BitXor'):
        if op == 'BitAnd':
            st = np.sort(np.stack([a.fp, b.fp]), axis=0)
            return BoolV(a.t & b.t, H('and', *st), rank=a.rank or b.rank)
        if op == 'BitOr':
            return BoolV(a.t | b.t, F.sub(F.ONE, H('and', *np.sort(np.stack([F.sub(F.ONE, a.fp), F.sub(F.ONE, b.fp)]), axis=0))), rank=a.rank or b.rank)
        return BoolV(a.t ^ b.t, rank=a.rank or b.rank)
    f = {'Add': n_add, 'Sub': n_sub, 'Mult': n_mul, 'Div': n_div, 'Pow': n_pow,
         'Mod': V.EW['mod'], 'FloorDiv': V.EW['floordiv']}.get(op)
    if f is None:
        return Num(H(('binop', op), fpof(a), fpof(b)))
    for x in (a, b):
        if x is NONE:
            I.raise_lanes(I.mask.copy(), 'TypeError', node, 'arithmetic on None')
            return Num(H('nonearith'))
    return mapn(I, f, a, b)


def seqadd(I, a, b):
    ka, kb = I.known(a), I.known(b)
    if ka is not None and kb is not None:
        return Tup(list(ka) + list(kb))
    return concat(I, [a, b])


def concat(I, parts):
    flat = []
    for p in parts:
        if isinstance(p, PyList):
            p = p.c
        if isinstance(p, Num) and p.node is not None and p.node[0] == 'concat':
            flat.extend(p.node[1])
        elif isinstance(p, (Tup, Arr)):
            flat.extend(('one', x) for x in p.e)
        elif isinstance(p, (Num, BoolV)) and p.rank == 0:
            flat.append(('one', p))
        else:
            flat.append(('arr', p))
    if all(t == 'one' for t, _ in flat):
        return Arr([x for _, x in flat])
    if len(flat) == 1:
        return flat[0][1]
    r = Num(H(('concat', len(flat)), *[fpof(x) for _, x in flat]), rank=1)
    r.node = ('concat', flat)
    return r


def cmpop(I, op, a, b, node):
    if op in ('Is', 'IsNot', 'Eq', 'NotEq'):
        r = None
        if a is NONE or b is NONE:
            r = as_bool_const(a is b)
        elif isinstance(a, Str) and isinstance(b, Str):
            if a.const is not None and b.const is not None:
                r = as_bool_const(a.const == b.const)
            else:
                r = BoolV(a.fp == b.fp)
        elif isinstance(a, Str) or isinstance(b, Str):
            s, x = (a, b) if isinstance(a, Str) else (b, a)
            if isinstance(x, Num) and s.const is not None:
                r = as_bool_const(False) if x.const is not None else streq(x, s.const)
            else:
                r = as_bool_const(False)
        elif isinstance(a, BoolV) and isinstance(b, BoolV):
            r = BoolV(a.t == b.t, const=(a.const == b.const) if None not in (a.const, b.const) else None)
        elif isinstance(a, Num) and isinstance(b, BoolV) or isinstance(a, BoolV) and isinstance(b, Num):
            n, bb = (a, b) if isinstance(a, Num) else (b, a)
            if n.const is not None and bb.const is None:
                r = bb if n.const == 1 else V.bnot(bb) if n.const == 0 else as_bool_const(False)
            elif bb.const is not None:
                # x == True / x == False / x is True on an opaque flag
                e = compare('eq', n, C(int(bb.const)))
                r = e
            else:
                r = compare('eq', num(I, a), num(I, b))
        elif isinstance(a, Num) and isinstance(b, Num):
            r = compare('eq', a, b)
        elif isinstance(a, (Obj, Func, ClassV)) or isinstance(b, (Obj, Func, ClassV)):
            r = as_bool_const(a is b)
        else:
            r = BoolV(fpof(a) == fpof(b))
        return r if op in ('Is', 'Eq') else bnot(r)
    if op in ('In', 'NotIn'):
        if isinstance(b, ObjDict) and isinstance(a, Str) and a.const is not None:
            r = hasattr_(I, b.o, a.const)
            return r if op == 'In' else bnot(r)
        if isinstance(b, PyDict) and b.opaque is None and (b.assoc or not b.d):
            hit, _ = dlookup(b, a)
            r = BoolV(hit, const=bool(hit[0]) if (hit == hit[0]).all() else None)
            return r if op == 'In' else bnot(r)
        k = I.known(b)
        if k is not None:
            t = np.zeros(F.K, bool)
            const = False
            for x in k:
                r = cmpop(I, 'Eq', a, x, node)
                r = I.truth(r)
                t = t | r.t
                if r.const is None or const is None:
                    const = None
                else:
                    const = const or r.const
            r = BoolV(t, const=const)
        elif isinstance(b, Str) and isinstance(a, Str) and a.const is not None and b.const is not None:
            r = as_bool_const(a.const in b.const)
        else:
            fp = H('in', fpof(a), fpof(b))
            r = BoolV(fp % np.uint64(2) == 0, fp)
        return r if op == 'In' else bnot(r)
    for x in (a, b):
        if x is NONE:
            I.raise_lanes(I.mask.copy(), 'TypeError', node, 'ordering comparison with None')
            return as_bool_const(False)
    if isinstance(a, PyList):
        a = toarray(I, a)
    if isinstance(b, PyList):
        b = toarray(I, b)
    if isinstance(a, (Arr, Tup)) or isinstance(b, (Arr, Tup)):
        return Num(H(('arrcmp', op), fpof(a), fpof(b)), rank=1)
    a, b = num(I, a), num(I, b)
    if op == 'Lt':
        return compare('lt', a, b)
    if op == 'LtE':
        return compare('le', a, b)
    if op == 'Gt':
        return compare('lt', b, a)
    return compare('le', b, a)


# ------------------------------------------------------------------ indexing

def rebuild_ew(node, args):
    return V.EW[node[1]](*args)


def _leafranks_known(x, seen=None):
    return x.rank is not None


def _isfull(k):
    return isinstance(k, tuple) and k[0] == 'slice' and (k[1] is None or isinstance(k[1], Num) and k[1].const == 0) and \
        (k[2] is None or k[2] is NONE) and (k[3] is None or k[3] is NONE or isinstance(k[3], Num) and k[3].const == 1)


def dlookup(b, k):
    """(lanes where the key is present, value) in a dict with symbolic keys"""
    kk = constkey(k)
    hit = np.zeros(F.K, bool)
    v = UNDEF
    if kk is not None and kk[0] in b.d:
        hit, v = np.ones(F.K, bool), b.d[kk[0]]
    kf = fpof(k)
    for m, f, _, x in b.assoc:
        e = m & (f == kf)
        if e.any():
            v = x if v is UNDEF else select(e, x, v)
            hit = hit | e
    return hit, v


def unmask(v, k):
    """the whole array whose elements at `k` are v: v was made of elements picked by the same mask"""
    nd = v.node
    if nd is not None and nd[0] == 'maskidx' and (nd[1][1].fp == k.fp).all() and isinstance(nd[1][0], Num):
        return nd[1][0]
    if v.rank == 0:
        return v
    if nd is not None and nd[0] == 'ew' and all(isinstance(x, Num) and x.rank is not None for x in nd[2]):
        xs = [unmask(x, k) for x in nd[2]]
        if any(x is not y for x, y in zip(xs, nd[2])):
            return V.EW[nd[1]](*xs)
    return v


def index(I, b, k):
    if isinstance(b, PltV) or isinstance(b, ExtM) and isinstance(b.recv, PltV):
        return plots.IGN
    if isinstance(b, ObjDict):
        kk = constkey(k) if not isinstance(k, tuple) else None
        if kk is not None and isinstance(kk[0], str):
            return I.getattr_(b.o, kk[0])
        I.unsupported('__dict__ lookup', None)
        return Num(H('dictlookup'))
    if isinstance(b, PyList):
        r = index(I, b.c, k)
        if isinstance(k, tuple) and k[0] == 'slice':
            return PyList(r)
        return r
    if isinstance(b, PyDict):
        kk = constkey(k) if not isinstance(k, tuple) else None
        if b.assoc and b.opaque is None and not isinstance(k, tuple):
            hit, v = dlookup(b, k)
            bad = I.mask & ~hit
            if bad.any():
                I.raise_lanes(bad, 'KeyError', None, 'key')
            return v
        if kk is not None and kk[0] in b.d and b.opaque is None:
            return b.d[kk[0]]
        if kk is not None and b.opaque is None:
            I.raise_lanes(I.mask.copy(), 'KeyError', None, repr(kk[0]))
            return Num(H('keyerror'))
        if b.opaque is None and isinstance(k, Num) and k.const is None and b.d and all(isinstance(x, str) for x in b.d):
            # symbolic string key: select over the entries
            out, hit = None, np.zeros(F.K, bool)
            for s, v in b.d.items():
                t = streq(k, s)
                out = v if out is None else select(t.t, v, out)
                hit = hit | t.t
            bad = I.mask & ~hit
            if bad.any():
                I.raise_lanes(bad, 'KeyError', None, 'key')
            return out
        return Num(H('dget', fpof(b), I.keyfp(k)), rank=None)
    if isinstance(b, Str):
        if b.const is not None:
            py = [None if x is None or x is NONE else axisof(x) if axisof(x) is not None else '?' for x in (k[1:] if isinstance(k, tuple) and k[0] == 'slice' else [k])]
            if '?' not in py and py != [None]:
                try:
                    return Str([b.const[slice(*py) if len(py) > 1 else py[0]]])
                except IndexError:
                    I.raise_lanes(I.mask.copy(), 'IndexError', None, 'string index')
        return Num(H('stridx', b.fp, I.keyfp(k)))
    if isinstance(b, (Tup, Arr)):
        n = len(b.e)
        if isinstance(k, Num) and k.const is not None and k.const.denominator == 1:
            i = int(k.const)
            if -n <= i < n:
                return b.e[i]
            I.raise_lanes(I.mask.copy(), 'IndexError', None, 'index %d of %d' % (i, n))
            return Num(H('indexerror'))
        if isinstance(k, BoolV) and k.const is not None:
            return b.e[int(k.const)] if n > int(k.const) else Num(H('indexerror'))
        if isinstance(k, tuple) and k[0] == 'slice':
            cs = []
            for x in k[1:]:
                if x is None or x is NONE:
                    cs.append(None)
                elif isinstance(x, Num) and x.const is not None and x.const.denominator == 1:
                    cs.append(int(x.const))
                else:
                    cs = None
                    break
            if cs is not None:
                return type(b)(b.e[slice(*cs)])
        if isinstance(k, Tup) and isinstance(b, Arr):
            r = b
            for x in k.e:
                r = index(I, r, x)
            return r
        if isinstance(k, tuple) and k[0] == 'keys' and isinstance(b, Arr):
            ks = k[1]
            if _isfull(ks[0]):
                return Arr([index(I, row, ks[1] if len(ks) == 2 else ('keys', ks[1:])) for row in b.e])
            if isinstance(ks[0], Num):
                r = index(I, b, ks[0])
                return index(I, r, ks[1] if len(ks) == 2 else ('keys', ks[1:]))
        lp = I.is_iter(k) if isinstance(k, Num) else None
        if lp is not None:
            pass
        # opaque key on a known sequence: pick by value number
        return Num(H('idxk', fpof(b), I.keyfp(k)), rank=None, node=('idx', (b, k)))
    if isinstance(b, Num):
        return index_num(I, b, k)
    if isinstance(b, BoolV):
        if b.rank:
            if _isfull(k):
                return b
            if isinstance(k, Num) and I.is_iter(k):
                return BoolV(b.t, b.fp)
        return Num(H('idx', b.fp, I.keyfp(k)))
    if isinstance(b, Iter):
        kn = iter_known(I, b)
        if kn is not None:
            return index(I, Tup(kn), k)
    if b is NONE:
        I.raise_lanes(I.mask.copy(), 'TypeError', None, 'None subscripted')
        return Num(H('nonesub'))
    return Num(H('idx', fpof(b), I.keyfp(k)), rank=None)


def index_num(I, b, k):
    if _isfull(k):
        return b
    if isinstance(k, BoolV):
        return Num(H('maskidx', b.fp, k.fp), rank=b.rank, node=('maskidx', (b, k)))
    if isinstance(k, Num) and k.const is None:
        lp = I.is_iter(k)
        if lp is not None:
            reg = lp.idxbase
            conflict = False
            kb = key(b.fp)
            for other in I.loops:
                if other is not lp and kb in other.idxbase:
                    conflict = True
            if not conflict:
                reg[kb] = True
                if b.rank != 0:
                    lp.reads.append(b)
                rk = b.rank - 1 if b.rank else b.rank
                if b.node is not None and b.node[0] == 'rows':
                    return b.node[1][0]
                return Num(b.fp, const=b.const, lin=b.lin, rad=b.rad, node=b.node, rank=rk)
    isslice = isinstance(k, tuple) and k[0] == 'slice'
    if b.rank == 1 and isinstance(k, Num) and k.const is None and k.node is not None and k.node[:2] in (('atom', 'argmin'), ('atom', 'argmax')):
        if (_arg(k.node[1])(I, [b], {}, None).fp == k.fp).all():
            return reduce1(I, k.node[1][3:], b)     # the least element at the index of the least element
    keys = isinstance(k, tuple) and k[0] == 'keys' or isinstance(k, Tup)
    nd = b.node
    if nd is not None and not keys:
        if nd[0] == 'ew' and b.rank == 1:
            args = nd[2]
            if all(x.rank is not None for x in args):
                return V.EW[nd[1]](*[index_num(I, x, k) if x.rank else x for x in args])
        if nd[0] == 'sel' and b.rank == 1 and nd[2][0].rank == 1 and nd[2][1].rank == 1:
            return select(nd[1], index_num(I, nd[2][0], k), index_num(I, nd[2][1], k))
        if nd[0] == 'atom' and nd[1] == 'fill' and b.const is not None and not isslice:
            return C(b.const)
        if nd[0] == 'concat' and isinstance(k, Num) and k.const is not None:
            t, x = None, None
            if k.const == -1:
                t, x = nd[1][-1]
            elif k.const == 0:
                t, x = nd[1][0]
            if t == 'one':
                return x
            if t == 'arr' and isinstance(x, Num):
                return index_num(I, x, k)
        if nd[0] == 'transpose' and isinstance(k, Num) and k.const is not None:
            return index_num(I, nd[1][0], ('keys', [('slice', None, None, None), k]))
        if nd[0] == 'idx' and isinstance(k, Num) and k.const is not None and k.const >= 0 and isinstance(nd[1][1], tuple) and nd[1][1][0] == 'slice':
            _, lo, hi, st = nd[1][1]
            lo, hi = (None if x is None or x is NONE else getattr(x, 'const', '?') for x in (lo, hi))
            if (st is None or st is NONE or getattr(st, 'const', None) == 1) and (lo is None or not isinstance(lo, str) and lo >= 0) \
                    and (hi is None or not isinstance(hi, str) and (hi > k.const + (lo or 0))):
                return index_num(I, nd[1][0], C(k.const + (lo or 0)))
        if nd[0] == 'nonzero' and isinstance(k, Num) and k.const == 0:      # where there is one
            return _arg('argmax')(I, [nd[1][0]], {}, None)
        if nd[0] == 'linspace' and isinstance(k, Num):
            if k.const == 0:
                return nd[1][0]
            if k.const == -1:
                return nd[1][1]
        if nd[0] == 'setidx':
            bb, kk, v = nd[1]
            if not isinstance(kk, tuple) and not isslice and (I.keyfp(kk) == I.keyfp(k)).all():
                return v
        if nd[0] == 'rows' and isinstance(k, Num) and k.const is not None and k.const.denominator == 1 and not keys:
            cs = rowcols(I, b)
            if cs is not None:
                return Arr([index_num(I, c, k) for c in cs])
        if nd[0] == 'odesol' and isinstance(k, Num) and k.const is not None and nd[2] == 'y':
            return ode_comp(I, nd[1], int(k.const))
    if keys:
        ks = list(k.e) if isinstance(k, Tup) else list(k[1])
        if nd is not None and nd[0] == 'odesol':
            if nd[2] == 'xy' and _isfull(ks[0]) and isinstance(ks[1], Num) and ks[1].const is not None:
                return ode_comp(I, nd[1], int(ks[1].const))
            if nd[2] == 'y' and isinstance(ks[0], Num) and ks[0].const is not None:
                c = ode_comp(I, nd[1], int(ks[0].const))
                return c if _isfull(ks[1]) else index_num(I, c, ks[1])
        if len(ks) == 2 and b.rank == 1 and _isfull(ks[0]) and ks[1] is NONE:
            return fromcols(I, [b])
        if nd is not None and nd[0] == 'transpose' and len(ks) == 2:
            return index_num(I, nd[1][0], ('keys', [ks[1], ks[0]]))
        cs = rowcols(I, b)
        if cs is not None and len(ks) == 2 and isinstance(ks[1], Num) and ks[1].const is not None and ks[1].const.denominator == 1 and -len(cs) <= ks[1].const < len(cs):
            return index_num(I, cs[int(ks[1].const)], ks[0])
        # canonical: x[:, j] is column j; x[i, :] is x[i]
        if len(ks) == 2 and _isfull(ks[0]) and isinstance(ks[1], (PyList, Tup, Arr)):
            js = I.known(ks[1])
            if js is not None and all(isinstance(j, Num) for j in js):
                return fromcols(I, [index_num(I, b, ('keys', [ks[0], j])) for j in js])
        if len(ks) == 2 and _isfull(ks[0]) and nd is not None and nd[0] == 'setidx' and isinstance(ks[1], Num):     # a column after a column was written
            bb, kk, v = nd[1]
            if isinstance(bb, Num) and isinstance(v, Num) and isinstance(kk, tuple) and kk[0] == 'keys' and len(kk[1]) == 2 and _isfull(kk[1][0]) and isinstance(kk[1][1], Num):
                j = kk[1][1]
                if v.rank == 1 and (j.fp == ks[1].fp).all():
                    return v
                if j.const is not None and ks[1].const is not None and (j.const >= 0) == (ks[1].const >= 0):
                    return index_num(I, bb, k)
        if len(ks) == 2 and _isfull(ks[0]):
            return Num(H('col', b.fp, I.keyfp(ks[1])), rank=1, node=('col', (b, ks[1])))
        if len(ks) == 2 and isinstance(ks[0], Num):
            r = index_num(I, b, ks[0])
            return index(I, r, ks[1])
    rk = None
    if b.rank is not None and b.rank >= 1:
        rk = b.rank if isslice else b.rank - 1
    elif b.rank is None or b.rank == 0:
        rk = 1 if isslice else 0
    fp = H('idx', b.fp, I.keyfp(k))
    if nd is not None and nd[0] == 'in' and not isslice and nd[1].rpartition('.')[2].rstrip("'") in I.positive:
        fp = F.mul(fp, fp)
    return Num(fp, rank=rk, node=('idx', (b, k)))


# ------------------------------------------------------------------ iteration

def iter_known(I, it):
    if it.kind == 'range':
        cs = [x.const if isinstance(x, Num) else None for x in it.args]
        if all(c is not None and c.denominator == 1 for c in cs):
            r = range(*[int(c) for c in cs])
            if len(r) <= 200:
                return tuple(C(i) for i in r)
        return None
    if it.kind == 'enumerate':
        k = I.known(it.args[0])
        st = it.args[1].const if len(it.args) > 1 and isinstance(it.args[1], Num) else 0
        if k is not None and st is not None:
            return tuple(Tup([C(i + st), x]) for i, x in enumerate(k))
        return None
    if it.kind == 'zip':
        ks = [I.known(x) for x in it.args]
        if all(k is not None for k in ks):
            return tuple(Tup(x) for x in zip(*ks))
        return None
    if it.kind == 'reversed':
        k = I.known(it.args[0])
        return tuple(reversed(k)) if k is not None else None
    if it.kind == 'map':
        k = [I.known(x) for x in it.args[1:]]
        if all(x is not None for x in k):
            return tuple(I.call(it.args[0], list(xs), {}, None) for xs in zip(*k))
        return None
    if it.kind == 'items':
        d = it.args[0]
        if isinstance(d, PyDict) and d.opaque is None:
            return tuple(Tup([pyconst(k), v]) for k, v in d.d.items())
        return None
    return None


def hasattr_(I, o, name):
    if I.find_method(o.cls, name)[1] is not None or I.classvar(o.cls, name) is not None:
        return as_bool_const(True)
    if name in o.attrs:
        v = o.attrs[name]
        und = np.zeros(F.K, bool)
        for m, x in (v.alts if isinstance(v, Alt) else [(np.ones(F.K, bool), v)]):
            if x is UNDEF:
                und = und | m
        return BoolV(~und, const=bool(~und[0]) if (und == und[0]).all() else None)
    if o.lazy is None:
        return as_bool_const(False)
    if I.private(o, name):
        I.touched.add((o.cls.name, name))
        return as_bool_const(I.initial(o, name) is not None)
    return as_bool_const(True)


def iter_sym(I, it, iteratom):
    """(bound value, element thunk, covers-everything?) for a symbolic for loop"""
    if isinstance(it, PyList):
        it = it.c
    if isinstance(it, Iter):
        if it.kind == 'range':
            a = it.args
            if len(a) == 1:
                start, stop, step = C(0), a[0], C(1)
            elif len(a) == 2:
                start, stop, step = a[0], a[1], C(1)
            else:
                start, stop, step = a
            start, stop, step = num(I, start), num(I, stop), num(I, step)
            full = start.const == 0 and step.const == 1 and stop.node is not None and stop.node[0] == 'len'
            elem = n_add(start, n_mul(step, iteratom))
            if start.const == 0 and step.const == 1:
                bound = stop
            else:
                bound = Tup([start, stop, step])
            return bound, elem, full
        if it.kind == 'enumerate':
            b, e, full = iter_sym(I, it.args[0], iteratom)
            st = it.args[1] if len(it.args) > 1 else C(0)
            return b, (lambda: Tup([n_add(num(I, st), iteratom), e() if callable(e) else e])), full
        if it.kind == 'zip':
            subs = [iter_sym(I, x, iteratom) for x in it.args]
            return subs[0][0], (lambda: Tup([e() if callable(e) else e for _, e, _ in subs])), all(s[2] for s in subs)
        if it.kind == 'map':
            subs = [iter_sym(I, x, iteratom) for x in it.args[1:]]
            f = it.args[0]
            return subs[0][0], (lambda: I.call(f, [e() if callable(e) else e for _, e, _ in subs], {}, None)), True
        if it.kind == 'reversed':
            b, e, full = iter_sym(I, it.args[0], iteratom)
            return b, (lambda: Num(H('revidx', fpof(it.args[0]), iteratom.fp))), False
    if isinstance(it, (Tup, Arr)):
        n = C(len(it.e))
        return n, (lambda: index(I, it, iteratom)), True
    x = num(I, it)
    if x.node is not None and x.node[:2] == ('atom', 'arange'):
        return iter_sym(I, Iter('range', list(x.node[2])), iteratom)
    return length(I, x), (lambda: index_num(I, x, iteratom) if x.rank != 0 else
                          index_num(I, Num(x.fp, lin=x.lin, rad=x.rad, node=x.node, rank=1), iteratom)), True


def covers(I, bound, init, nxt):
    """does the index range 0..bound-1 cover the whole mapped array?"""
    if bound is None or isinstance(bound, Tup):
        return False
    if isinstance(init, Num) and init.node is not None and init.node[0] == 'atom' and init.node[1] == 'fill':
        n = init.node[2][0]
        if isinstance(n, Num) and (n.fp == bound.fp).all():
            return True
    if isinstance(init, Num) and (length(I, init).fp == bound.fp).all():
        return True
    if bound.node is not None and bound.node[0] == 'len':
        return True
    return False


def append_pattern(I, sym, nxt, init):
    """nxt == sym ++ [v] with an initially empty sequence -> v"""
    empty = isinstance(init, (Tup, Arr)) and len(init.e) == 0
    if isinstance(init, PyList):
        empty = isinstance(init.c, Tup) and not init.c.e
    if not empty:
        return None
    if isinstance(nxt, PyList):
        nxt = nxt.c
    if isinstance(sym, PyList):
        sym = sym.c
    if isinstance(nxt, Num) and nxt.node is not None and nxt.node[0] == 'concat':
        p = nxt.node[1]
        if len(p) == 2 and p[0][0] == 'arr' and p[0][1] is sym and p[1][0] == 'one':
            return p[1][1]
    return None


_small = {}
for _d in (1, 2, 3, 4, 5, 8, 10, 100):
    for _n in range(-1000, 1001):
        _f = Fraction(_n, _d)
        _small.setdefault(int(F.const(_f)[0]), _f)


def small_const(res):
    return _small.get(res)


def length(I, v):
    if isinstance(v, Alt):
        return I.lift(lambda x: length(I, x), v)
    k = I.known(v)
    if k is not None:
        return C(len(k))
    if isinstance(v, Str):
        return C(len(v.const)) if v.const is not None else Num(H('len', v.fp))
    x = num(I, v)
    while True:
        n = V.CTX.lens.get(key(x.fp))
        if n is not None:
            return n
        nd = x.node
        if nd is None:
            break
        if nd[0] == 'ew':
            arrs = [a for a in nd[2] if a.rank is None or a.rank >= 1]
            if not arrs:
                break
            x = arrs[0]
            if len(arrs) > 1:
                # prefer non-fill operand
                for a in arrs:
                    if not (a.node is not None and a.node[0] == 'atom' and a.node[1] == 'fill'):
                        x = a
                        break
            continue
        if nd[0] == 'sel' and nd[2][0].rank == nd[2][1].rank:
            x = nd[2][0]
            continue
        if nd[0] == 'atom' and nd[1] == 'fill':
            n = nd[2][0]
            if isinstance(n, Num) and n.rank == 0:
                return n
            if isinstance(n, Tup):
                return n.e[0] if n.e else C(0)
            return length(I, n)
        if nd[0] in ('linspace',):
            return nd[1][2]
        if nd[0] == 'setidx':
            x = num(I, nd[1][0])
            continue
        if nd[0] == 'odesol' and nd[2] == 'comp':
            return Num(H('odelen', nd[1][2].fp), node=('len', (x,)), isint=True)
        break
    return Num(H('len', x.fp), node=('len', (x,)), isint=True)


# ------------------------------------------------------------------ linear algebra

def dot(I, a, b):
    a, b = toarray(I, a), toarray(I, b)
    if isinstance(a, Alt) or isinstance(b, Alt):
        return I.lift(lambda x, y: dot(I, x, y), a, b)
    if isinstance(a, Arr) and isinstance(b, Arr):
        am = bool(a.e) and isinstance(a.e[0], Arr)
        bm = bool(b.e) and isinstance(b.e[0], Arr)
        if any(m and not all(isinstance(r, Arr) and len(r.e) == len(v.e[0].e) for r in v.e) for m, v in ((am, a), (bm, b))):
            return generic(I, 'numpy.dot', [a, b], {})
        if not am and not bm:
            r = C(0)
            for x, y in zip(a.e, b.e):
                r = n_add(r, n_mul(num(I, x), num(I, y)))
            return r
        if am and not bm:
            return Arr([dot(I, row, b) for row in a.e])
        if not am and bm:
            cols = list(zip(*[r.e for r in b.e]))
            return Arr([dot(I, a, Arr(c)) for c in cols])
        cols = list(zip(*[r.e for r in b.e]))
        return Arr([Arr([dot(I, row, Arr(c)) for c in cols]) for row in a.e])
    if isinstance(a, Num) and isinstance(b, Num) and (a.rank == 0 or b.rank == 0):
        return n_mul(a, b)
    # a known matrix/vector with an opaque vector: name its components
    ca = rowcols(I, a)
    if ca is not None and isinstance(b, Arr):       # a table and a vector, or a matrix
        if not isinstance(b.e[0], Arr):
            return dot(I, Arr(ca), b) if len(ca) == len(b.e) else generic(I, 'numpy.dot', [a, b], {})
        return fromcols(I, [dot(I, Arr(ca), Arr(c)) for c in zip(*[r.e for r in b.e])])
    if isinstance(a, Arr) and isinstance(b, Num) and len(a.e):
        n = len(a.e[0].e) if isinstance(a.e[0], Arr) else len(a.e)
        return dot(I, a, Arr([index_num(I, b, C(i)) for i in range(n)]))
    if isinstance(b, Arr) and isinstance(a, Num) and len(b.e) and not isinstance(b.e[0], Arr):
        return dot(I, Arr([index_num(I, a, C(i)) for i in range(len(b.e))]), b)
    return Num(H('dot', *np.sort(np.stack([fpof(a), fpof(b)]), axis=0)), rank=None, node=('dot', (a, b)))


matmul = dot


def vec3(I, v):
    v = toarray(I, v)
    if isinstance(v, Arr):
        return v if len(v.e) == 3 else None
    if isinstance(v, Num):
        return Arr([index_num(I, v, C(i)) for i in range(3)])
    return None


def cross(I, a, b):
    a, b = toarray(I, a), toarray(I, b)
    ra, rb = rowcols(I, a), rowcols(I, b)
    va, vb = [r if r is not None else getattr(vec3(I, v), 'e', None) for r, v in ((ra, a), (rb, b))]
    if va is None or vb is None or len(va) != 3 or len(vb) != 3 or \
            any(r is None and any(not isinstance(e, Num) or e.rank for e in v) for r, v in ((ra, va), (rb, vb))):
        return generic(I, 'numpy.cross', [a, b], {})
    x, y = [num(I, e) for e in va], [num(I, e) for e in vb]
    m, s = n_mul, n_sub
    return (Arr if ra is None and rb is None else lambda es: fromcols(I, es))([s(m(x[1], y[2]), m(x[2], y[1])), s(m(x[2], y[0]), m(x[0], y[2])), s(m(x[0], y[1]), m(x[1], y[0]))])


def _sumsq(I, es):
    r = C(0)
    for e in es:
        e = num(I, e)
        r = n_add(r, n_mul(e, e))
    return r


def norm(I, v, axis=None):
    v = toarray(I, v)
    if axis is not None:
        cs = v.e if isinstance(v, Arr) and axis in (0, -2) else rowcols(I, v) if axis in (1, -1) else None
        if cs is None or any(isinstance(c, Arr) for c in cs):
            return None
        return n_sqrt(_sumsq(I, cs))
    cs = rowcols(I, v)
    if cs is not None or isinstance(v, Arr) and any(isinstance(e, Num) and e.rank for e in v.e):
        return Num(H('norm', fpof(v)), node=('atom', 'norm', (v,)))
    if isinstance(v, Arr):
        return n_sqrt(_sumsq(I, v.e))
    return Num(H('norm', fpof(v)), node=('atom', 'norm', (v,)))


def transpose(I, v):
    v = toarray(I, v)
    if isinstance(v, Arr) and v.e and all(isinstance(r, Arr) for r in v.e):
        return Arr([Arr(c) for c in zip(*[r.e for r in v.e])])
    if isinstance(v, Num) and v.rank in (0, 1):
        return v
    if isinstance(v, Arr):
        if v.e and all(isinstance(x, Num) and x.rank for x in v.e):
            return fromcols(I, v.e)
        return v
    cs = rowcols(I, v)
    if cs is not None:
        return Arr(cs)
    return Num(H('transpose', fpof(v)), rank=2, node=('transpose', (v,)))


# ------------------------------------------------------------------ ODE solvers

def ode_rhs(I, func, y0, args, tfirst):
    """value number of the right-hand side on canonical state/time symbols"""
    k = I.known(y0) if not isinstance(y0, Num) else None
    n = len(k) if k is not None else None
    Y = Arr([Num(H(('ode_y', i)), node=('in', 'y%d' % i)) for i in range(n)]) if n is not None else \
        Num(H('ode_y'), node=('in', 'y'), rank=1)
    T = Num(H('ode_t'), node=('in', 't'))
    j = []
    I.journals.append(j)
    snap = I.snapshot()
    sv = (I.mask, I.cur)
    try:
        r = I.call(func, ([T, Y] if tfirst else [Y, T]) + list(args), {}, None)
        fp = fpof(toarray(I, r))
    finally:
        I.journals.remove(j)
        I.rollback(j)
        I.restore(snap)
        I.mask, I.cur = sv
    return fp, n


def ode_comp(I, info, j):
    rhs, y0, tg, n, extra = info
    if n is not None and j < 0:
        j += n
    r = Num(H(('ode', j), rhs, fpof(y0), tg.fp, extra), rank=1)
    r.node = ('odesol', info, 'comp')
    return r


# ------------------------------------------------------------------ externals

IGNORED = ('matplotlib', 'pandas.plotting')
CANON = {
    'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'numpy.nanmax': 'numpy.max', 'numpy.trapz': 'numpy.trapezoid',
    'scipy.integrate.trapezoid': 'numpy.trapezoid', 'scipy.integrate.trapz': 'numpy.trapezoid',
    'scipy.integrate.cumtrapz': 'scipy.integrate.cumulative_trapezoid',
    'numpy.radians': 'numpy.deg2rad', 'numpy.degrees': 'numpy.rad2deg', 'math.radians': 'numpy.deg2rad',
    'math.degrees': 'numpy.rad2deg', 'numpy.asarray': 'numpy.array', 'numpy.atan2': 'numpy.arctan2', 'math.atan2': 'numpy.arctan2',
    'math.sqrt': 'numpy.sqrt', 'math.pow': 'numpy.power', 'math.hypot': 'numpy.hypot',
    'math.fsum': 'numpy.sum', 'numpy.random.randn': 'numpy.random.randn',
}


DTYPES = {'float': 'f', 'float64': 'f', 'double': 'f', 'f8': 'f', 'd': 'f', 'longdouble': 'f', 'object': 'f', 'float_': 'f', 'complex': 'f', 'complex128': 'f',
          '<f8': 'f', 'number': 'f',
          'int': 'i', 'int64': 'i', 'int32': 'i', 'int16': 'i', 'int8': 'i', 'int_': 'i', 'intp': 'i', 'i8': 'i', 'i4': 'i', 'i': 'i', 'intc': 'i',
          'uint8': 'u', 'uint16': 'u', 'uint32': 'u', 'uint64': 'u', 'uint': 'u',
          'bool': 'b', 'bool_': 'b', '?': 'b', 'float32': 's', 'single': 's', 'f4': 's', 'f': 's', 'float16': 's', 'half': 's'}
def ascending(I, x):
    """is this table certainly in ascending order?"""
    e = I.known(x) if not isinstance(x, Num) else None
    if e is not None:
        c = [v.const if isinstance(v, Num) else None for v in e]
        return all(v is not None for v in c) and all(a < b for a, b in zip(c, c[1:]))
    nd = getattr(x, 'node', None)
    if nd is not None and nd[0] in ('linspace', 'arange'):
        a, b = nd[1][0], nd[1][1]
        if nd[0] == 'linspace' and a.const is not None and b.const is not None:
            return a.const < b.const
    if nd is not None and nd[0] == 'atom' and nd[1] in ('sorted', 'numpy.sort', 'numpy.unique'):
        return True
    return False


DTPOS = {'zeros': 1, 'ones': 1, 'empty': 1, 'array': 1, 'full': 2, 'zeros_like': 1, 'ones_like': 1, 'empty_like': 1, 'full_like': 2}


def dtkind(v):
    if v is None or v is NONE:
        return None
    if isinstance(v, Str):
        return DTYPES.get(v.const, '?')
    if isinstance(v, Ext):
        return DTYPES.get(v.path.rpartition('.')[2], '?')
    return '?'


def cast(I, v, k):
    """conversion to an element type"""
    if k in ('i', 'u'):
        r = map1(I, lambda x: builtin_call(I, 'int', [x], {}, None), v)
        return r if k == 'i' else map1(I, V.EW['unsigned'], r)
    if k == 'b':
        if isinstance(v, BoolV):
            return v
        return map1(I, lambda x: x if truthlike(x) else binop_cmp_nonzero(I, x), v)
    if k == 's':
        return map1(I, lambda x: x if x.const is not None and x.const.denominator == 1 else V.EW['single'](x), v)
    return v


def truthlike(x):
    if isinstance(x, Num) and x.node is not None and x.node[0] == 'rows':
        return truthlike(x.node[1][0])
    return isinstance(x, BoolV) or isinstance(x, Num) and x.const in (0, 1)


def binop_cmp_nonzero(I, x):
    b = I.truth(x)
    return BoolV(b.t, const=b.const, rank=getattr(x, 'rank', 0))


def intliteral(n):
    A = ast
    if isinstance(n, A.UnaryOp):
        n = n.operand
    if isinstance(n, (A.List, A.Tuple)):
        return bool(n.elts) and all(intliteral(x) for x in n.elts)
    if isinstance(n, A.BinOp) and isinstance(n.op, A.Mult):         # [0] * n
        return isinstance(n.left, A.List) and intliteral(n.left)
    return isinstance(n, A.Constant) and type(n.value) is int


def typed(I, tail, r, args, kw, node):
    """element type of a new array: what is stored into it later is converted"""
    if tail in ('float32', 'single', 'float16', 'half'):
        return cast(I, r, 's')
    if tail not in DTPOS or not isinstance(r, (Num, Arr)):
        return r
    pos = DTPOS[tail]
    dt = kw.get('dtype', args[pos] if len(args) > pos else None)
    k = dtkind(dt)
    if k is None:
        if tail.endswith('_like'):
            k = getattr(args[0], 'idt', None) if args else None
        elif tail in ('array', 'full'):
            na = getattr(node, 'args', [])
            j = 0 if tail == 'array' else 1
            src = na[j] if len(na) > j else None
            if src is not None and intliteral(src):
                k = 'i'
    if k in (None, 'f'):
        if k == 'f' and getattr(r, 'idt', None) is not None:
            r = _copymod.copy(r)
            r.idt = None
        return r
    if k == '?':
        I.opaque.add('dtype')
        return r
    r = cast(I, r, k)
    if isinstance(r, (Num, Arr)) and any(r is a for a in args):
        r = _copymod.copy(r)
    if isinstance(r, (Num, Arr)):
        r.idt = k
    return r


def stored(I, b, v):
    """v as it is kept by array b"""
    k = getattr(b, 'idt', None)
    if k is None or k == 'b' and isinstance(v, BoolV):
        return v
    return I.lift(lambda x: cast(I, x, k), v)


def extattr(I, p):
    p = p.replace('numpy.linalg.linalg', 'numpy.linalg')
    if p in ('numpy.pi', 'math.pi', 'scipy.constants.pi'):
        return PI
    if p in ('numpy.e', 'math.e'):
        return V.EW['exp'](C(1))
    if p in ('numpy.inf', 'math.inf'):
        return Num(H('infinity'))
    if p in ('numpy.nan', 'math.nan'):
        return Num(H('nan'))
    if p in ('numpy.newaxis',):
        return NONE
    if p.split('.')[0] in ('numpy', 'scipy', 'math', 'copy', 'random') and not api_exists(p):
        I.raise_lanes(I.mask.copy(), 'AttributeError', None, 'library member %s does not exist' % p)
        return Num(H(('noapi', p)))
    return Ext(p)


_API = {}


def api_exists(p):
    """does the installed library have this member? (the library is inspected, not the analysed program)"""
    if p not in _API:
        import importlib
        import warnings
        parts = p.split('.')
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                o = importlib.import_module(parts[0])
                for i, x in enumerate(parts[1:], 1):
                    try:
                        o = getattr(o, x)
                    except AttributeError:
                        o = importlib.import_module('.'.join(parts[:i + 1]))
            _API[p] = True
        except (ImportError, AttributeError):
            _API[p] = False
    return _API[p]


BUILTINS = {'len', 'max', 'min', 'abs', 'range', 'enumerate', 'zip', 'print', 'str', 'int', 'float', 'round', 'sorted',
            'set', 'list', 'tuple', 'dict', 'map', 'sum', 'isinstance', 'any', 'all', 'reversed', 'bool', 'pow', 'type',
            'hasattr', 'getattr', 'setattr', 'open', 'repr', 'filter', 'id', 'super', 'object', 'complex', 'iter', 'next', 'frozenset', 'callable', 'divmod', 'vars', 'slice'}


def builtin(I, nm):
    if nm in ('assume', 'ignore', 'unspecified', 'signed') and I.frames and I.frames[-1].mod.name.startswith('spec.'):
        return Ext('spec.' + nm)
    if nm in BUILTINS:
        return Ext('builtins.' + nm)
    import builtins
    if hasattr(builtins, nm):
        return Ext('builtins.' + nm)
    if nm in ('__name__', '__file__'):
        return Str([nm])
    return None


APILOG = set()


def check_ext(I, path, node):
    APILOG.add(path)


def is_ignored(p):
    return p.split('.')[0] in IGNORED


def kwfps(kw):
    names = tuple(sorted(kw))
    return names, [fpof(kw[n]) for n in names]


# functions that cannot be part of a correct rewriting of what the references do: using one is a difference
DISTINCT = {'numpy.sort', 'numpy.unwrap', 'numpy.median', 'numpy.percentile', 'numpy.quantile', 'scipy.interpolate.PchipInterpolator',
            'scipy.interpolate.CubicSpline', 'scipy.interpolate.Akima1DInterpolator', 'scipy.interpolate.UnivariateSpline', 'numpy.polyfit',
            'scipy.signal.savgol_filter', 'scipy.ndimage.gaussian_filter1d', 'scipy.signal.medfilt', 'numpy.random.permutation', 'numpy.random.shuffle'}
DISTINCT_METHODS = {'sort_values', 'sort_index', 'rank', 'shift', 'rolling', 'ewm', 'cummax', 'cummin', 'head', 'tail', 'sample', 'rolling'}


# parameter names (in order) and default values of library routines that may be called either way
SIGS = {
    'scipy.optimize.newton': 'func x0 fprime args tol maxiter fprime2 x1 rtol full_output disp',
    'scipy.optimize.brentq': 'f a b args xtol rtol maxiter full_output disp',
    'scipy.optimize.brenth': 'f a b args xtol rtol maxiter full_output disp',
    'scipy.optimize.ridder': 'f a b args xtol rtol maxiter full_output disp',
    'scipy.optimize.bisect': 'f a b args xtol rtol maxiter full_output disp',
    'scipy.optimize.fsolve': 'func x0 args fprime',
    'scipy.optimize.root_scalar': 'f args method bracket fprime fprime2 x0 x1 xtol rtol maxiter',
    'scipy.optimize.minimize_scalar': 'fun bracket bounds args method tol options',
    'numpy.random.normal': 'loc=0 scale=1 size=None',
    'numpy.random.uniform': 'low=0 high=1 size=None',
    'numpy.polyfit': 'x y deg',
    'numpy.polyval': 'p x',
    'numpy.interp': 'x xp fp left=None right=None period=None',
}


def bindsig(path, args, kw):
    """arguments of a library routine, by position or by name, in one form"""
    sig = SIGS.get(path)
    if sig is None:
        return args, kw
    sig = [x.partition('=') for x in sig.split()]
    if len(args) > len(sig):
        return args, kw
    d = dict(kw)
    for (n, _, _), a in zip(sig, args):
        d[n] = a
    for n, _, dv in sig:
        if dv and n in d and (d[n] is NONE if dv == 'None' else getattr(d[n], 'const', None) == int(dv)):
            del d[n]
    return [], d


def generic(I, path, args, kw, rank=None):
    args, kw = bindsig(path, args, kw)
    names, fps = kwfps(kw)
    f = args[0] if path == 'opaque-call' else None
    if path not in DISTINCT and not (isinstance(f, Num) and f.node and f.node[0] == 'oattr' and f.node[2] in DISTINCT_METHODS):
        I.opaque.add(path)
    return Num(H(('ext', path, len(args), names), *([fpof(a) for a in args] + fps)), rank=rank,
               node=('atom', 'ext:' + path, tuple(args) + tuple(kw[n] for n in names)))


def quantified(I, name, x):
    """any/all over a sequence given by its generic element"""
    if isinstance(x, Num) and x.node is not None and x.node[0] == 'rows' and isinstance(x.node[1][0], BoolV):
        x = x.node[1][0]
    elif not (isinstance(x, BoolV) and x.rank != 0):
        return None
    return V.exists(x.t) if name == 'any' else V.bnot(V.exists(~x.t))


def reduce1(I, name, v, kw=None, along=False):
    v = toarray(I, v)
    if isinstance(v, Alt):
        return I.lift(lambda x: reduce1(I, name, x), v)
    if isinstance(v, Arr) and v.e and not isinstance(v.e[0], Arr) and (along or not any(isinstance(e, Num) and e.rank for e in v.e)):
        xs = [num(I, e) for e in v.e]
        if name in ('max', 'min'):
            if all(x.const is not None for x in xs):
                return C((max if name == 'max' else min)(x.const for x in xs))
            return V.EW['maximum' if name == 'max' else 'minimum'](*xs)
        if name in ('sum', 'mean'):
            r = C(0)
            for x in xs:
                r = n_add(r, x)
            return n_div(r, C(len(xs))) if name == 'mean' else r
        if name == 'prod':
            r = C(1)
            for x in xs:
                r = n_mul(r, x)
            return r
    x = num(I, v) if not isinstance(v, Arr) else Num(fpof(v), rank=2)
    if name in ('max', 'min') and x.const is not None:
        return C(x.const)
    if name in ('any', 'all'):
        q = quantified(I, name, v)
        if q is not None:
            return q
    if isinstance(v, BoolV):
        x = Num(v.fp, rank=1)
    u = unscaled(x) if name in ('max', 'min', 'sum', 'mean') else None
    if u is not None:
        return n_mul(C(u[0]), reduce1(I, name, u[1]))
    return Num(H(('red', name), x.fp), node=('atom', name, (x,)))


def unscaled(x):
    """(k, y) with x = k*y, k a positive constant other than 1, of a vector"""
    s = V._single(x.lin) if x.const is None and x.rank == 1 else None
    if s is None or abs(s[0]) == 1:
        return None
    k = abs(s[0])
    y = n_mul(C(1 / k), x)
    return k, Num(y.fp, lin=y.lin, rad=y.rad, rank=1, node=y.node)


def extcall(I, path, args, kw, node):
    if path.startswith('spec.'):
        return spec_call(I, path[5:], args)
    if any(isinstance(a, Alt) for a in args) and not path.startswith('builtins.print'):
        return I.lift(lambda *xs: extcall(I, path, list(xs), kw, node), *args)
    for k in list(kw):
        if isinstance(kw[k], Alt):
            return I.lift(lambda x: extcall(I, path, args, dict(kw, **{k: x}), node), kw[k])
    path = CANON.get(path, path)
    head, _, tail = path.rpartition('.')
    if head == 'builtins':
        return builtin_call(I, tail, args, kw, node)
    if is_ignored(path):
        return plots.extcall(I, path, args, kw, node)
    if head in ('numpy', 'math', 'numpy.lib.scimath', 'cmath'):
        if tail in EWNAMES and args:
            if tail in ('log',) and len(args) == 2:
                return n_div(V.EW['log'](num(I, args[0])), V.EW['log'](num(I, args[1])))
            return map1(I, V.EW[EWNAMES[tail]], args[0])
        f = NP.get(tail)
        if f is not None:
            return typed(I, tail, f(I, args, kw, node), args, kw, node)
    if path in ('numpy.linalg.multi_dot', 'math.prod', 'math.dist'):
        r = std.stdcall(I, path, list(args), dict(kw), node)
        if r is not None:
            return r
    if path == 'numpy.multiply.outer':
        return NP['multiply.outer'](I, args, kw, node)
    if head == 'numpy.linalg':
        if tail == 'norm' and len(args) == 1 and not kw:
            return norm(I, args[0])
        if tail == 'norm' and len(args) == 1 and 'axis' in kw:
            r = norm(I, args[0], axisof(kw['axis'])) if set(kw) == {'axis'} else None
            return r if r is not None else generic(I, path, args, kw)
        if tail == 'inv' and len(args) == 1:
            return generic(I, path, args, kw)
    if head in ('numpy.random', 'random') or head.startswith('numpy.random'):
        if tail == 'seed' and head in ('numpy.random', 'random'):
            if args and args[0] is not NONE or kw:      # from here on the numbers follow from the seed
                wm = I.wmask()
                new = H(('seed', head), *[fpof(a) for a in list(args) + list(kw.values())])
                I.seeded[head] = np.where(wm, new, I.seeded.get(head, F.ZERO))
            return NONE
        if path == 'random.randrange' and not kw and args:
            lo, hi = (C(0), num(I, args[0])) if len(args) == 1 else (num(I, args[0]), num(I, args[1]))
            if len(args) < 3:
                path, args = 'random.randint', [lo, n_sub(hi, C(1))]
        if path == 'random.choice' and len(args) == 1 and not kw:
            x = args[0]
            if not isinstance(x, (Alt, PyDict, Obj)):
                return index(I, x, extcall(I, 'random.randint', [C(0), n_sub(num(I, length(I, x)), C(1))], {}, node))
        names, fps = kwfps(kw)
        rk = 1 if (path.endswith('normal') and (len(args) > 2 or 'size' in kw)) else 0
        args, kw = bindsig(path, list(args), kw)
        names, fps = kwfps(kw)
        cand = list(args)
        base = H(('rand', path, len(args), names), *([fpof(a) for a in cand] + fps + ([I.seeded[head]] if head in I.seeded else [])))
        kk = int(base[0]) << 32 | int(base[1])
        n = I.randn.get(kk, 0)
        I.randn[kk] = n + 1
        return Num(H(('draw', n), base), rank=rk, node=('atom', 'rand:' + path, tuple(args) + tuple(kw[n] for n in names)))
    if path in ('copy.deepcopy', 'copy.copy'):
        return deepcopy(I, args[0], {} if path == 'copy.deepcopy' else None)
    if path == 'scipy.interpolate.interp1d':
        d = dict(kw)
        for nm, a in zip(['x', 'y', 'kind'], args):
            d[nm] = a
        kind = d.get('kind', Str(['linear']))
        if 'bounds_error' in d and isinstance(d['bounds_error'], BoolV) and d['bounds_error'].const is None:
            pass
        fill = d.get('fill_value', NONE)
        pair = I.known(fill) if isinstance(fill, Tup) else None
        if pair is not None and len(pair) == 2 and (fpof(pair[0]) == fpof(pair[1])).all():
            fill = pair[0]
        be = d.get('bounds_error', NONE)
        if be is NONE:
            be = V.as_bool_const(not (isinstance(fill, Str) and fill.const == 'extrapolate'))
        fps = [fpof(toarray(I, d.get(k, NONE))) for k in ('x', 'y')] + [fpof(kind), fpof(toarray(I, fill) if not isinstance(fill, Str) else fill), fpof(be)]
        extra = {k: v for k, v in d.items() if k not in ('x', 'y', 'kind', 'fill_value', 'bounds_error', 'assume_sorted', 'copy')}
        srt = d.get('assume_sorted')
        if srt is not None and not (isinstance(srt, BoolV) and srt.const is False) and not ascending(I, d.get('x', NONE)):
            extra['assume_sorted'] = srt            # an unsorted table is not put in order
        names, xf = kwfps(extra)
        return Num(H(('interp1d', names), *(fps + xf)), node=('atom', 'interp1d', tuple(d.get(k, NONE) for k in ('x', 'y'))), rank=0)
    if path == 'scipy.integrate.cumulative_trapezoid':
        d = dict(kw)
        for nm, a in zip(['y', 'x', 'dx', 'axis', 'initial'], args):
            d[nm] = a
        return cumtrapz(I, d)
    if path in ('scipy.integrate.odeint',):
        d = dict(kw)
        for nm, a in zip(['func', 'y0', 't', 'args'], args):
            d[nm] = a
        fa = I.known(d['args']) if 'args' in d else ()
        tf = d.get('tfirst')
        rhs, n = ode_rhs(I, d['func'], d['y0'], fa or (), isinstance(tf, BoolV) and tf.const is True)
        extra = H('ode-agree') if I.agree else H('odeint', *[fpof(d.get(k, NONE)) for k in ('rtol', 'atol')])
        info = (rhs, toarray(I, d['y0']), num(I, d['t']), n, extra)
        return Num(H('odesol', rhs, fpof(info[1]), info[2].fp, extra), rank=2, node=('odesol', info, 'xy'))
    if path in ('scipy.integrate.solve_ivp',):
        d = dict(kw)
        for nm, a in zip(['fun', 't_span', 'y0', 'method', 't_eval', 'dense_output', 'events', 'vectorized', 'args'], args):
            d[nm] = a
        fa = I.known(d['args']) if 'args' in d else ()
        rhs, n = ode_rhs(I, d['fun'], d['y0'], fa or (), True)
        te = num(I, d.get('t_eval', d.get('t_span', NONE)))
        ev = d.get('events', NONE)
        evfp = NONE.fp
        if isinstance(ev, (Func, Bound)):
            ef, _ = ode_rhs(I, ev, d['y0'], fa or (), True)
            term = I.getattr_(ev, 'terminal')
            dr = I.getattr_(ev, 'direction')
            evfp = H('event', ef, fpof(term), fpof(dr))
        elif ev is not NONE:
            evfp = fpof(ev)
        extra = H('ode-agree') if I.agree else \
            H('solve_ivp', *([fpof(d.get(k, NONE)) for k in ('t_span', 'rtol', 'atol')] +
                             [fpof(d.get('method', Str(['RK45']))), evfp]))
        info = (rhs, toarray(I, d['y0']), te, n, extra)
        o = Obj(None)
        o.cls = _OdeCls
        o.attrs['t'] = te if I.agree else Num(H('odet', rhs, fpof(info[1]), te.fp, extra), rank=1, node=('odesol', info, 'comp'))
        o.attrs['y'] = Num(H('odesoly', rhs, fpof(info[1]), te.fp, extra), rank=2, node=('odesol', info, 'y'))
        o.attrs['success'] = Num(H('odeok', o.attrs['y'].fp))
        return o
    if path == 'os.path.join' and args and not kw and all(isinstance(a, (Str, Num)) for a in args):
        parts = []
        for i, a in enumerate(args):
            p = strparts(I, a, '')
            if p and isinstance(p[0], str) and p[0].startswith('/'):
                parts = []
            elif i and not (parts and isinstance(parts[-1], str) and parts[-1].endswith('/')):
                parts.append('/')
            parts.extend(p)
            parts = list(Str(parts).parts)
        return Str(parts)
    if path == 'numpy.savetxt':
        d = dict(kw)
        for nm, a in zip(('fname', 'X', 'fmt', 'delimiter', 'newline', 'header', 'footer', 'comments'), args):
            d[nm] = a
        fpX = fpof(toarray(I, d['X']))
        how = {k: d[k] for k in ('fmt', 'delimiter', 'newline', 'header', 'footer')
               if k in d and not (isinstance(d[k], Str) and d[k].const == {'fmt': '%.18e', 'delimiter': ' ', 'newline': '\n', 'header': '', 'footer': ''}[k])}
        if how:
            fpX = H(('format', tuple(sorted(how))), fpX, *[fpof(how[k]) for k in sorted(how)])
        args = [d['fname'], d['X']]
        I.effects.append(('savetxt', fpof(args[0]), fpX, args[0], args[1],
                          (I.frames[-1].mod.path, getattr(node, 'lineno', 0), I.frames[-1].func.name if I.frames[-1].func else '?'), I.mask.copy()))
        return NONE
    if path in ('os.makedirs', 'os.mkdir', 'warnings.filterwarnings', 'os.path.exists', 'os.path.isdir', 'time.time'):
        return Num(H(('os', path)))
    if path == 'types.SimpleNamespace':
        o = Obj(namespace())
        o.birth = I.mask.copy()
        o.attrs.update(kw)
        return o
    if path in ('dataclasses.asdict', 'dataclasses.replace') and args and isinstance(args[0], Obj):
        return I.call(I.getattr_(args[0], '__asdict__' if path.endswith('asdict') else '__copy_with__'), [], dict(kw), node)
    if path in ('functools.partial',):
        f = args[0]
        pre, pk = list(args[1:]), dict(kw)
        return _Partial(f, pre, pk)
    if head.partition('.')[0] in ('operator', 'functools', 'itertools'):
        r = std.stdcall(I, path, list(args), dict(kw), node)
        if r is not None:
            return r
    if path.startswith('scipy.optimize'):
        args, kw = bindsig(path, args, kw)
        fps = [fpof(a) for a in args]
        names, kf = kwfps(kw)
        I.opaque.add(path)
        return Num(H(('ext', path, len(args), names), *(fps + kf)),
                   node=('atom', 'ext:' + path, tuple(args) + tuple(kw[n] for n in names if n not in ('f', 'func', 'fun'))))
    if path == 'astropy.coordinates.get_body_barycentric_posvel':
        names, fps = kwfps(kw)
        return Num(H(('ephemeris', path, len(args), names), I.ambient, *([fpof(a) for a in args] + fps)), rank=None,
                   node=('atom', 'ext:' + path, tuple(args)))
    return generic(I, path, args, kw)


class _OdeClsT:
    name = 'OdeResult'
    bases = []
    methods = {}
    vars = {}
    fattrs = {}
    props = set()
    statics = set()
    classms = set()
    mod = None


_OdeCls = _OdeClsT()


class _Partial(Func):
    def __init__(self, f, pre, kw):
        self.f, self.pre, self.kw = f, pre, kw
        self.attrs = {}


def deepcopy(I, v, memo):
    if memo is None:
        if isinstance(v, Obj):
            if v.lazy is not None and v.cls is not None:        # the parts are shared with the original
                for cn, nm in I.types:
                    if cn == v.cls.name and nm not in v.attrs:
                        I.getattr_(v, nm, None)
            o = Obj(v.cls, lazy=v.lazy, attrs=v.attrs)
            o.sym = dict(v.sym)
            o.birth = I.mask.copy()
            return o
        if isinstance(v, PyList):
            return PyList(v.c)
        if isinstance(v, PyDict):
            o = PyDict(v.d)
            o.opaque, o.assoc = v.opaque, v.assoc
            return o
        return v
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Obj):
        o = Obj(v.cls, lazy=v.lazy)
        o.birth = I.mask.copy()
        memo[id(v)] = o
        for k, x in v.attrs.items():
            o.attrs[k] = deepcopy(I, x, memo)
        # lazily created object symbols of the copy are fresh objects with the same path
        return o
    if isinstance(v, PyList):
        o = PyList(deepcopy(I, v.c, memo))
        memo[id(v)] = o
        return o
    if isinstance(v, PyDict):
        o = PyDict()
        memo[id(v)] = o
        for k, x in v.d.items():
            o.d[k] = deepcopy(I, x, memo)
        o.opaque = v.opaque
        o.assoc = v.assoc
        return o
    if isinstance(v, (Tup, Arr)):
        return type(v)([deepcopy(I, x, memo) for x in v.e])
    if isinstance(v, Alt):
        return Alt([(m, deepcopy(I, x, memo)) for m, x in v.alts])
    if isinstance(v, Bound):
        return Bound(v.func, deepcopy(I, v.self_, memo))
    return v


def apply_opaque(I, f, args, kw, node):
    """call of an opaque callable value (interpolant, user function): pointwise in its arguments"""
    def g(*xs):
        return Num(H(('apply', len(xs)), f.fp, *[x.fp for x in xs]), node=('ew', 'apply', (f,) + tuple(xs)), rank=jrank(*xs) if xs else 0)
    if kw:
        return generic(I, 'opaque-call', [f] + list(args), kw)
    return mapn(I, g, *args) if args else g()


def _ew_apply(f, *xs):
    return Num(H(('apply', len(xs)), f.fp, *[x.fp for x in xs]), node=('ew', 'apply', (f,) + tuple(xs)), rank=jrank(*xs) if xs else 0)


V.EW['apply'] = _ew_apply


def spec_call(I, nm, args):
    if nm == 'assume':
        c = I.truth(args[0])
        I.excluded = I.excluded | (I.mask & ~c.t)
    elif nm == 'signed':        # the sign function agrees with the comparison with zero
        x = args[0]
        d = ((F.chi(x.fp) == F.ONE) == V.compare('lt', C(0), x).t) & ~V.compare('eq', x, C(0)).t
        I.excluded = I.excluded | (I.mask & ~d)
    elif nm == 'ignore':
        for a in args:
            I.ignored.add(a.const)
    elif nm == 'unspecified':
        I.excluded = I.excluded | I.mask
    return NONE


def builtin_call(I, nm, args, kw, node):
    if nm == 'print':
        if I.console and 'file' not in kw:
            sep, end = kw.get('sep', Str([' '])), kw.get('end', Str(['\n']))
            parts = []
            for i, a in enumerate(args):
                if i:
                    parts.extend(strparts(I, sep, ''))
                parts.extend(strparts(I, a, ''))
            t = Str(parts + strparts(I, end, ''))
            I.effects.append(('print', H('console'), t.fp, Str(['console']), t, (I.frames[-1].mod.path, getattr(node, 'lineno', 0), '?'), I.mask.copy()))
        return NONE
    if nm == 'len':
        return length(I, args[0])
    if nm in ('max', 'min'):
        if len(args) == 1:
            if isinstance(args[0], Iter):
                k = iter_known(I, args[0])
                if k is not None:
                    return reduce1(I, nm, Arr(k))
            return reduce1(I, nm, args[0])
        xs = [num(I, a) for a in args]
        if all(x.const is not None for x in xs):
            return C((max if nm == 'max' else min)(x.const for x in xs))
        return V.EW['maximum' if nm == 'max' else 'minimum'](*xs)
    if nm == 'abs':
        return map1(I, n_abs, args[0])
    if nm in ('range', 'enumerate', 'zip', 'map', 'reversed'):
        if nm == 'enumerate' and 'start' in kw:
            args = list(args) + [kw['start']]
        return Iter(nm, list(args))
    if nm in ('str', 'repr'):
        return Str(strparts(I, args[0], '')) if args else Str([''])
    if nm == 'float':
        x = args[0]
        if isinstance(x, Arr) and len(x.e) == 1:
            return num(I, x.e[0])
        return num(I, x) if not isinstance(x, Str) else Num(H('floatstr', x.fp))
    if nm == 'int':
        if isinstance(args[0], BoolV):
            return num(I, args[0])
        x = num(I, args[0])
        if x.const is not None:
            return C(int(x.const))
        if x.isint:
            return x
        r = Num(H('int', V.near(x)), node=('ew', 'int', (x,)), rank=x.rank, isint=True)
        return r
    if nm == 'bool':
        return I.truth(args[0])
    if nm == 'round':
        return map1(I, lambda x: Num(H('round', V.near(x), fpof(args[1]) if len(args) > 1 else F.ZERO), node=('atom', 'round', (x,)), rank=x.rank), args[0])
    if nm == 'pow':
        return mapn(I, n_pow, args[0], args[1])
    if nm == 'sum':
        if len(args) == 2:
            return n_add(num(I, args[1]), num(I, reduce1(I, 'sum', args[0])))
        return reduce1(I, 'sum', args[0])
    if nm in ('list', 'tuple'):
        if not args:
            return PyList(Tup([])) if nm == 'list' else Tup([])
        k = I.known(args[0])
        if k is not None:
            return PyList(Tup(k)) if nm == 'list' else Tup(k)
        x = args[0]
        if isinstance(x, Iter):
            depth = len(I.loops)
            it = Num(H(('ITER', depth)), node=('iter',), rank=0, isint=True)
            from .core import LoopCtx
            b, e, full = iter_sym(I, x, it)
            lp = LoopCtx(it)
            I.loops.append(lp)
            v = e() if callable(e) else e
            I.loops.remove(lp)
            v = num(I, v)
            n = Num(v.fp, const=v.const, lin=v.lin, rad=v.rad, node=v.node, rank=(v.rank or 0) + 1)
            if not full:
                n = partial(I, n, H(('code', 'for'), np.zeros(F.K, np.uint64), fpof(b)))
            return PyList(n)
        return PyList(num(I, x))
    if nm == 'dict':
        d = PyDict(kw)
        if args and isinstance(args[0], PyDict):
            d.d = dict(args[0].d, **kw)
        elif args:
            k = I.known(args[0])
            if k is not None:
                for kv in k:
                    p = I.known(kv)
                    ck = constkey(p[0]) if p else None
                    if ck is not None:
                        d.d[ck[0]] = p[1]
        return d
    if nm == 'isinstance':
        v, c = args
        if isinstance(v, Obj) and isinstance(c, ClassV):
            return as_bool_const(c.cls in I.mro(v.cls))
        fp = H('isinstance', fpof(v), fpof(c))
        return BoolV(fp % np.uint64(2) == 0, fp)
    if nm in ('any', 'all'):
        k = I.known(args[0])
        if k is not None:
            t = np.full(F.K, nm == 'all')
            for x in k:
                b = I.truth(x)
                t = (t & b.t) if nm == 'all' else (t | b.t)
            return BoolV(t)
        x = args[0]
        if isinstance(x, PyList):
            x = x.c
        q = quantified(I, nm, x)
        if q is not None:
            return q
        fp = H(nm, fpof(x))
        return BoolV(fp % np.uint64(2) == 0, fp)
    if nm == 'getattr':
        if isinstance(args[1], Str) and args[1].const is not None:
            if len(args) > 2 and isinstance(args[0], Obj) and args[0].lazy is None and args[1].const not in args[0].attrs \
                    and I.find_method(args[0].cls, args[1].const)[1] is None:
                return args[2]
            if len(args) > 2 and isinstance(args[0], Obj):
                h = hasattr_(I, args[0], args[1].const)
                if not h.t.any():
                    return args[2]
                if not h.t.all():
                    sv = I.mask
                    I.mask = sv & h.t
                    x = I.getattr_(args[0], args[1].const, node)
                    I.mask = sv
                    return select(h.t, x, args[2])
            return I.getattr_(args[0], args[1].const, node)
        I.unsupported('getattr dynamic', node)
        return Num(H('getattr', fpof(args[0]), fpof(args[1])))
    if nm in ('setattr', 'getattr', 'hasattr') and isinstance(args[1], Alt):
        out = None
        sv = I.mask
        for m, x in args[1].alts:
            I.mask = sv & m
            if I.mask.any():
                r = builtin_call(I, nm, [args[0], x] + list(args[2:]), kw, node)
                out = r if out is None or out is NONE else select(m, r, out)
        I.mask = sv
        return NONE if out is None else out
    if nm == 'vars' and len(args) == 1 and isinstance(args[0], Obj):
        return ObjDict(args[0])
    if nm == 'slice':
        return SliceV([None, args[0], None] if len(args) == 1 else list(args) + [None] * (3 - len(args)))
    if nm == 'setattr':
        if isinstance(args[1], Str) and args[1].const is not None:
            I.setattr_(args[0], args[1].const, args[2])
        else:
            I.unsupported('setattr dynamic', node)
        return NONE
    if nm == 'hasattr':
        if isinstance(args[0], Obj) and isinstance(args[1], Str) and args[1].const is not None:
            return hasattr_(I, args[0], args[1].const)
        return as_bool_const(True)
    if nm in ('sorted', 'set', 'frozenset'):
        return Num(H(('bi', nm), fpof(args[0]) if args else F.ZERO), rank=1, node=('atom', nm, tuple(args)))
    if nm == 'divmod':
        return Tup([mapn(I, V.EW['floordiv'], *args), mapn(I, V.EW['mod'], *args)])
    if nm in ('ValueError', 'TypeError', 'Exception', 'RuntimeError', 'KeyError', 'IndexError'):
        return Num(H(('exc', nm)))
    if nm == 'type':
        return ClassV(args[0].cls) if isinstance(args[0], Obj) else Num(H('type', fpof(args[0])))
    if nm == 'callable':
        return as_bool_const(isinstance(args[0], (Func, Bound, ClassV)))
    return generic(I, 'builtins.' + nm, args, kw)


# ---- numpy table

def _fill(val):
    def f(I, args, kw, node):
        n = args[0] if args else kw.get('shape')
        nn = I.known(n) if not isinstance(n, Num) else None
        if isinstance(n, Num) and n.const is not None and 0 < n.const <= 16 and n.const.denominator == 1:
            return Arr([C(val)] * int(n.const))
        if nn is not None:
            cs = [x.const if isinstance(x, Num) else None for x in nn]
            if all(c is not None and c <= 16 for c in cs) and len(cs) == 2:
                return Arr([Arr([C(val)] * int(cs[1])) for _ in range(int(cs[0]))])
            r = C(val)
            return Num(r.fp, const=r.const, rank=len(nn), node=('atom', 'fill', (Tup(nn),)))
        r = C(val)
        return Num(r.fp, const=r.const, rank=1, node=('atom', 'fill', (n if isinstance(n, Num) else num(I, n),)))
    return f


def _fill_like(val):
    def f(I, args, kw, node):
        a = args[0]
        if isinstance(a, (Arr, PyList, Tup)) and I.known(a) is not None:
            return map1(I, lambda x: C(val), a)
        x = num(I, a)
        r = C(val)
        return Num(r.fp, const=r.const, rank=x.rank, node=('atom', 'fill', (length(I, x),)))
    return f


def _full(I, args, kw, node):
    v = num(I, args[1] if len(args) > 1 else kw['fill_value'])
    n = args[0]
    if isinstance(n, Num) and n.const is not None and n.const <= 16:
        return Arr([v] * int(n.const))
    return Num(v.fp, const=v.const, lin=v.lin, rad=v.rad, rank=1, node=('ew', 'add', (v, Num(F.ZERO, const=Fraction(0), rank=1, node=('atom', 'fill', (n,))))))


def _full_like(I, args, kw, node):
    return _full(I, [length(I, args[0]), args[1]], kw, node)


def _nonzero(I, args, kw, node):
    x = toarray(I, args[0])
    return Num(H('nonzero', fpof(x)), rank=1, node=('nonzero', (x,)), isint=True)


def _heaviside(I, args, kw, node):
    x = args[0]
    if not isinstance(x, Num) or kw:
        return generic(I, 'numpy.heaviside', args, kw)
    lo, eq = V.compare('<', x, C(0)), V.compare('==', x, C(0))
    return _where(I, [lo, C(0), _where(I, [eq, args[1], C(1)], {}, node)], {}, node)


def _where(I, args, kw, node):
    if len(args) == 1 and not kw:
        return Tup([_nonzero(I, args, kw, node)])
    c = args[0]
    if isinstance(c, BoolV):
        a, b = args[1], args[2]
        if isinstance(a, (Num, BoolV)) and isinstance(b, (Num, BoolV)):
            a, b = num(I, a), num(I, b)
            rk = None if None in (a.rank, b.rank, c.rank) else max(a.rank, b.rank, c.rank)
            r = select(c.t, a, b)
            return Num(r.fp, const=r.const, lin=r.lin, rad=r.rad, node=r.node, rank=rk)
        return select(c.t, a, b)
    return generic(I, 'numpy.where', args, kw)


def _array(I, args, kw, node):
    return toarray(I, args[0])


def _append(I, args, kw, node):
    if 'axis' in kw or len(args) > 2:
        return generic(I, 'numpy.append', args, kw)
    return concat(I, [args[0], args[1]])


def _concat(I, args, kw, node):
    seq = I.known(args[0])
    if seq is None or kw.get('axis') is not None and fpof(kw['axis']).tolist() != F.ZERO.tolist():
        return generic(I, 'numpy.concatenate', args, kw)
    return concat(I, list(seq))


def _linspace(I, args, kw, node):
    d = dict(kw)
    for n, a in zip(['start', 'stop', 'num'], args):
        d[n] = a
    a, b, n = num(I, d['start']), num(I, d['stop']), num(I, d.get('num', C(50)))
    if 'retstep' in d or 'axis' in d:
        return generic(I, 'numpy.linspace', args, kw)
    ep = d.get('endpoint', as_bool_const(True))
    if not (isinstance(ep, BoolV) and ep.const is True):      # without its end point the grid stops one step short
        t = I.truth(ep)
        short = n_sub(b, n_div(n_sub(b, a), n))
        b = short if isinstance(ep, BoolV) and ep.const is False else select(t.t, b, short)
    r = Num(H('linspace', a.fp, b.fp, n.fp), rank=1)
    r.node = ('linspace', (a, b, n))
    return r


def _arange(I, args, kw, node):
    d = [num(I, a) for a in args]
    if len(d) == 1:
        d = [C(0), d[0], C(1)]
    elif len(d) == 2:
        d = d + [C(1)]
    if all(x.const is not None and x.const.denominator == 1 for x in d):
        r = range(*[int(x.const) for x in d])
        if len(r) <= 64:
            return Arr([C(i) for i in r])
    return Num(H('arange', *[x.fp for x in d]), rank=1, node=('atom', 'arange', tuple(d)))


def _trapz(I, args, kw, node):
    d = dict(kw)
    for n, a in zip(['y', 'x', 'dx'], args):
        d[n] = a
    c = extcall(I, 'scipy.integrate.cumulative_trapezoid', [d['y'], d.get('x', NONE)], dict({'initial': C(0)}, **({'dx': d['dx']} if 'dx' in d else {})), node)
    return index_num(I, c, C(-1))


def _delete(I, args, kw, node):
    if len(args) == 2 and not kw and getattr(args[1], 'const', None) in (0, -1) and getattr(toarray(I, args[0]), 'rank', 0) == 1:
        lo, hi = (C(1), None) if args[1].const == 0 else (None, C(-1))
        return index(I, toarray(I, args[0]), ('slice', lo, hi, None))
    return Num(H(('delete',), fpof(toarray(I, args[0])), fpof(args[1])), rank=1, node=('atom', 'delete', tuple(args)))


def _ndim(I, args, kw, node):
    v = args[0]
    n = 0
    while isinstance(v, Arr) and v.e:
        n, v = n + 1, v.e[0]
    if isinstance(v, Num) and v.rank is not None:
        return C(n + v.rank)
    return generic(I, 'numpy.ndim', args, kw)


def axisof(v):
    c = getattr(v, 'const', None)
    return int(c) if c is not None and Fraction(c).denominator == 1 else None


def _stack(kind):
    def f(I, args, kw, node):
        seq = I.known(args[0])
        if seq is not None and not set(kw) - {'axis'} and len(args) <= 2:
            seq = [toarray(I, x) for x in seq]
            ax = axisof(kw['axis']) if 'axis' in kw else axisof(args[1]) if len(args) > 1 else 0
            vec = all(isinstance(x, Num) and x.rank == 1 or isinstance(x, Arr) and not any(isinstance(y, Arr) for y in x.e) for x in seq)
            if kind == 'stack' and ax == 0 and seq or vec and kind == 'vstack':
                return Arr(seq)
            if vec and (kind == 'column_stack' or kind == 'stack' and ax in (1, -1)):
                return transpose(I, Arr(seq))
            if kind == 'c_' and vec:
                return transpose(I, Arr(seq))
        return generic(I, 'numpy.' + kind, args, kw)
    return f


def _diff(I, args, kw, node):
    x = toarray(I, args[0])
    if len(args) > 1 or kw or not (isinstance(x, Num) and x.rank in (None, 0, 1) or isinstance(x, Arr)):
        return generic(I, 'numpy.diff', args, kw)
    return mapn(I, n_sub, index(I, x, ('slice', C(1), None, None)), index(I, x, ('slice', None, C(-1), None)))


def _outer(rank):
    def f(I, args, kw, node):
        a, b = (toarray(I, x) for x in args[:2])
        if isinstance(a, Arr) and not kw and not any(isinstance(x, Arr) for x in a.e) \
                and (rank is None or isinstance(b, Arr) and not any(isinstance(x, Arr) for x in b.e) or isinstance(b, Num) and b.rank == rank):
            return Arr([mapn(I, n_mul, x, b) for x in a.e])
        return generic(I, 'numpy.outer' if rank else 'numpy.multiply.outer', args, kw)
    return f


def _contract(I, ops, ins, out):
    """the sum of products over the repeated indices, of arrays of known sizes"""
    dims = {}

    def sizes(x, sub):
        if sub and isinstance(x, Arr):
            if dims.setdefault(sub[0], len(x.e)) != len(x.e):
                return False
            return all(sizes(y, sub[1:]) for y in x.e)
        return isinstance(x, Num) and (x.rank == len(sub))
    if not all(sizes(x, s) for x, s in zip(ops, ins)) or not set(''.join(ins)) <= set(dims) or not set(out) <= set(dims):
        return None
    rest = sorted(set(dims) - set(out))
    if np.prod([dims[c] for c in dims] or [1]) > 4096:
        return None

    def at(x, sub, ix):
        for c in sub:
            x = x.e[ix[c]] if isinstance(x, Arr) else index_num(I, x, C(ix[c]))
        return num(I, x)

    def value(ix):
        r = C(0)
        for t in np.ndindex(*[dims[c] for c in rest]):
            jx = dict(ix, **dict(zip(rest, t)))
            p = C(1)
            for x, s in zip(ops, ins):
                p = n_mul(p, at(x, s, jx))
            r = n_add(r, p)
        return r

    def build(o, ix):
        return value(ix) if not o else Arr([build(o[1:], dict(ix, **{o[0]: i})) for i in range(dims[o[0]])])
    return build(out, {})


def _einsum(I, args, kw, node):
    sub = args[0].const.replace(' ', '') if isinstance(args[0], Str) and args[0].const else ''
    ins, _, out = sub.partition('->')
    ins = ins.split(',')
    if not _:
        out = ''.join(sorted(c for c in set(''.join(ins)) if ''.join(ins).count(c) == 1))
    if kw or len(args) != 3 or len(ins) != 2 or len(set(ins[0])) < len(ins[0]) or len(set(ins[1])) < len(ins[1]):
        r = _contract(I, [toarray(I, a) for a in args[1:]], ins, out) if not kw and len(ins) == len(args) - 1 else None
        return r if r is not None else generic(I, 'numpy.einsum', args, kw)
    a, b = args[1:]
    p, q = ins
    if len(p) == len(q) == 1 and p == q and out == '':
        return dot(I, a, b)
    if len(p) == 2 and len(q) == 1 and p[1] == q and out == p[0] or len(p) == 2 == len(q) and p[1] == q[0] and p[0] != q[1] and out == p[0] + q[1]:
        return dot(I, a, b)
    if len(p) == 2 and p == q and len(set(p)) == 2 and out in (p[0], p[1]):
        r = mapn(I, n_mul, toarray(I, a), toarray(I, b))
        return NP['sum'](I, [r], {'axis': C(1 if out == p[0] else 0)}, node)
    if len(p) == 2 and len(q) == 1 and p[0] == q and out == p[1] and len(set(p)) == 2:
        return dot(I, transpose(I, a), b)
    r = _contract(I, [toarray(I, a), toarray(I, b)], ins, out)
    return r if r is not None else generic(I, 'numpy.einsum', args, kw)


def _red(name):
    def f(I, args, kw, node):
        if kw.get('axis') is not None and kw.get('axis') is not NONE or len(args) > 1:
            ax = axisof(kw.get('axis') if 'axis' in kw else args[1])
            x = toarray(I, args[0])
            cs = rowcols(I, x) if ax in (1, -1) else x.e if ax in (0, -2) and isinstance(x, Arr) and all(isinstance(e, Num) and e.rank for e in x.e) else None
            if cs is not None and set(kw) <= {'axis'} and name in ('sum', 'mean', 'max', 'min', 'prod'):
                return reduce1(I, name, Arr(cs), along=True)
            return generic(I, 'numpy.' + name, args, kw)
        return reduce1(I, name, args[0])
    return f


def _arg(name):
    def f(I, args, kw, node):
        x = args[0]
        x = toarray(I, x)
        u = unscaled(x) if isinstance(x, Num) else None
        x = u[1] if u is not None else x
        return Num(H(('red', name), fpof(x)), node=('atom', name, (x,)), isint=True)
    return f


def _clip(I, args, kw, node):
    d = dict(kw)
    for n, a in zip(['a', 'a_min', 'a_max'], args):
        d[n] = a
    lo, hi = d.get('a_min', d.get('min')), d.get('a_max', d.get('max'))
    r = d['a']
    if lo is not None and lo is not NONE:
        r = mapn(I, V.EW['maximum'], r, lo)
    if hi is not None and hi is not NONE:
        r = mapn(I, V.EW['minimum'], r, hi)
    return r


def _logical(op):
    def f(I, args, kw, node):
        bs = [I.truth(a) for a in args]
        if op == 'and':
            return binop(I, 'BitAnd', bs[0], bs[1], node)
        if op == 'or':
            return binop(I, 'BitOr', bs[0], bs[1], node)
        return bnot(bs[0])
    return f


def _eye(I, args, kw, node):
    n = args[0].const
    if n is None or n > 16:
        return generic(I, 'numpy.eye', args, kw)
    n = int(n)
    return Arr([Arr([C(1 if i == j else 0) for j in range(n)]) for i in range(n)])


def _interp(I, args, kw, node):
    d = dict(kw)
    for n, a in zip(('x', 'xp', 'fp', 'left', 'right', 'period'), args):
        d[n] = a
    if d.get('period', NONE) is not NONE:
        return generic(I, 'numpy.interp', args, kw)
    lo, hi = d.get('left', NONE), d.get('right', NONE)
    lo = index(I, d['fp'], C(0)) if lo is NONE else lo
    hi = index(I, d['fp'], C(-1)) if hi is NONE else hi
    f = extcall(I, 'scipy.interpolate.interp1d', [d['xp'], d['fp']], dict(bounds_error=pyconst(False), fill_value=Tup([lo, hi])), node)
    return I.call(f, [d['x']], {}, node)


NP = {
    'sqrt': lambda I, a, k, n: map1(I, n_sqrt, a[0]),
    'square': lambda I, a, k, n: map1(I, lambda x: n_mul(x, x), a[0]),
    'cbrt': lambda I, a, k, n: map1(I, lambda x: n_pow(x, C(Fraction(1, 3))), a[0]),
    'power': lambda I, a, k, n: mapn(I, n_pow, a[0], a[1]),
    'add': lambda I, a, k, n: mapn(I, n_add, a[0], a[1]),
    'subtract': lambda I, a, k, n: mapn(I, n_sub, a[0], a[1]),
    'multiply': lambda I, a, k, n: mapn(I, n_mul, a[0], a[1]),
    'divide': lambda I, a, k, n: mapn(I, n_div, a[0], a[1]),
    'true_divide': lambda I, a, k, n: mapn(I, n_div, a[0], a[1]),
    'negative': lambda I, a, k, n: map1(I, n_neg, a[0]),
    'reciprocal': lambda I, a, k, n: map1(I, n_inv, a[0]),
    'hypot': lambda I, a, k, n: mapn(I, lambda x, y: n_sqrt(n_add(n_mul(x, x), n_mul(y, y))), a[0], a[1]),
    'deg2rad': lambda I, a, k, n: map1(I, lambda x: n_div(n_mul(x, PI), C(180)), a[0]),
    'rad2deg': lambda I, a, k, n: map1(I, lambda x: n_div(n_mul(x, C(180)), PI), a[0]),
    'arctan2': lambda I, a, k, n: mapn(I, V.EW['arctan2'], a[0], a[1]),
    'mod': lambda I, a, k, n: mapn(I, V.EW['mod'], a[0], a[1]),
    'maximum': lambda I, a, k, n: mapn(I, V.EW['maximum'], a[0], a[1]),
    'minimum': lambda I, a, k, n: mapn(I, V.EW['minimum'], a[0], a[1]),
    'zeros': _fill(0), 'ones': _fill(1), 'empty': _fill(0), 'zeros_like': _fill_like(0), 'ones_like': _fill_like(1),
    'empty_like': _fill_like(0), 'full': _full, 'full_like': _full_like, 'where': _where, 'array': _array, 'append': _append,
    'concatenate': _concat, 'hstack': _concat, 'linspace': _linspace, 'arange': _arange, 'trapezoid': _trapz, 'delete': _delete, 'ndim': _ndim,
    'max': _red('max'), 'min': _red('min'), 'sum': _red('sum'), 'mean': _red('mean'), 'prod': _red('prod'), 'std': _red('std'),
    'any': _red('any'), 'all': _red('all'),
    'argmax': _arg('argmax'), 'argmin': _arg('argmin'), 'clip': _clip, 'eye': _eye, 'identity': _eye,
    'dot': lambda I, a, k, n: dot(I, a[0], a[1]), 'matmul': lambda I, a, k, n: dot(I, a[0], a[1]),
    'vdot': lambda I, a, k, n: dot(I, a[0], a[1]), 'inner': lambda I, a, k, n: dot(I, a[0], a[1]),
    'flatnonzero': _nonzero, 'nonzero': lambda I, a, k, n: Tup([_nonzero(I, a, k, n)]),
    'vstack': _stack('vstack'), 'stack': _stack('stack'), 'column_stack': _stack('column_stack'), 'einsum': _einsum,
    'cross': lambda I, a, k, n: cross(I, a[0], a[1]), 'transpose': lambda I, a, k, n: transpose(I, a[0]),
    'float64': lambda I, a, k, n: num(I, a[0]), 'float32': lambda I, a, k, n: num(I, a[0]), 'float': lambda I, a, k, n: num(I, a[0]),
    'int64': lambda I, a, k, n: builtin_call(I, 'int', a, k, n), 'int32': lambda I, a, k, n: builtin_call(I, 'int', a, k, n),
    'single': lambda I, a, k, n: num(I, a[0]), 'float16': lambda I, a, k, n: num(I, a[0]),
    'trunc': lambda I, a, k, n: map1(I, lambda x: builtin_call(I, 'int', [x], {}, n), a[0]), 'fix': lambda I, a, k, n: map1(I, lambda x: builtin_call(I, 'int', [x], {}, n), a[0]),
    'rint': lambda I, a, k, n: builtin_call(I, 'round', [a[0], C(0)], k, n), 'nan_to_num': lambda I, a, k, n: a[0], 'interp': _interp, 'copy': lambda I, a, k, n: toarray(I, a[0]),
    'logical_and': _logical('and'), 'logical_or': _logical('or'), 'logical_not': _logical('not'),
    'atleast_1d': lambda I, a, k, n: a[0], 'squeeze': lambda I, a, k, n: a[0], 'ravel': lambda I, a, k, n: flat(a[0]),
    'heaviside': _heaviside, 'diff': _diff,
    'outer': _outer(1), 'multiply.outer': _outer(None), 'len': lambda I, a, k, n: length(I, a[0]),
    'round': lambda I, a, k, n: builtin_call(I, 'round', a, k, n), 'around': lambda I, a, k, n: builtin_call(I, 'round', a, k, n),
    'size': lambda I, a, k, n: length(I, a[0]),
    'loadtxt': lambda I, a, k, n: generic(I, 'numpy.loadtxt', a, k, rank=2),
    'vectorize': lambda I, a, k, n: a[0],
}


# ---- methods of values

def valattr(I, v, name, node):
    if isinstance(v, PltV):
        return plots.attr(I, v, name)
    if isinstance(v, Arr) and name == 'flat':
        r = methcall(I, ExtM(v, 'ravel'), [], {}, node)
        return r
    if isinstance(v, (Num, Arr)):
        if name == 'T':
            return transpose(I, v)
        if name == 'size':
            return length(I, v)
        if name == 'shape':
            if isinstance(v, Arr) and v.e and isinstance(v.e[0], Arr):
                return Tup([C(len(v.e)), C(len(v.e[0].e))])
            if isinstance(v, Num) and v.rank == 2:
                return Tup([Num(H('len', v.fp), node=('len', (v,))), Num(H('len2', v.fp))])
            return Tup([length(I, v)])
    if isinstance(v, Arr) and name == 'value':
        return map1(I, lambda x: valattr(I, x, name, node), v)
    if isinstance(v, (Num, Arr, PyList, Tup, Str, PyDict, BoolV, Iter, NoneT)):
        if v is NONE:
            I.raise_lanes(I.mask.copy(), 'AttributeError', node, 'None.' + name)
            return Num(H('noneattr'))
        if isinstance(v, Num) and name not in NUMMETH:
            # attribute of an opaque object; components of a Cartesian vector are scalars
            if name == 'values':
                return v            # a table column and its values
            if name == 'xyz':
                return Arr([valattr(I, v, c, node) for c in 'xyz'])
            if name in ('x', 'y', 'z') or name == 'value' and v.rank == 0:
                return Num(H(('oattr', name), v.fp), rank=0, node=('oattr', (v,), name))
            return Num(H(('oattr', name), v.fp), rank=None, node=('oattr', (v,), name))
        return ExtM(v, name)
    return ExtM(v, name)


NUMMETH = {'to_numpy', 'to_list', 'max', 'min', 'sum', 'mean', 'std', 'copy', 'astype', 'tolist', 'item', 'append', 'extend', 'flatten', 'ravel',
           'reshape', 'transpose', 'dot', 'argmax', 'argmin', 'any', 'all', 'cumsum', 'clip', 'round', 'squeeze', 'prod', 'fill', 'conj'}


def methcall(I, f, args, kw, node):
    v, nm = f.recv, f.name
    if isinstance(v, PltV):
        if any(isinstance(a, Alt) for a in args):
            return I.lift(lambda *xs: plots.method(I, v, nm, list(xs), kw, node), *args)
        return plots.method(I, v, nm, args, kw, node)
    if isinstance(v, ExtM) and isinstance(v.recv, PltV):
        return plots.IGN
    if isinstance(v, ObjDict):
        if nm == 'update':
            src = args[0] if args else PyDict()
            for m, d in (src.alts if isinstance(src, Alt) else [(I.mask, src)]):
                ps = I.known(d) if not isinstance(d, PyDict) else None
                if ps is not None:
                    ps = [I.known(x) for x in ps]
                    if all(x is not None and len(x) == 2 and isinstance(x[0], Str) and x[0].const is not None for x in ps):
                        d = PyDict({x[0].const: x[1] for x in ps})
                if isinstance(d, PyDict) and d.opaque is None and all(isinstance(k, str) for k in d.d):
                    sv = I.mask
                    I.mask = sv & m
                    if I.mask.any():
                        for k, x in list(d.d.items()) + list(kw.items()):
                            I.setattr_(v.o, k, x)
                    I.mask = sv
                else:
                    I.unsupported('__dict__.update', node)
            return NONE
        if nm == 'get' and isinstance(args[0], Str):
            return builtin_call(I, 'getattr', [v.o, args[0], args[1] if len(args) > 1 else NONE], {}, node)
        if nm == 'setdefault' and isinstance(args[0], Str) and args[0].const is not None:
            m = I.truth(hasattr_(I, v.o, args[0].const)).t
            sv = I.mask
            I.mask = sv & ~m
            if I.mask.any():
                I.setattr_(v.o, args[0].const, args[1] if len(args) > 1 else NONE)
            I.mask = sv
            return builtin_call(I, 'getattr', [v.o, args[0]], {}, node)
        if nm == 'pop' and isinstance(args[0], Str) and args[0].const is not None and len(args) == 1:
            r = builtin_call(I, 'getattr', [v.o, args[0]], {}, node)
            I.setattr_(v.o, args[0].const, UNDEF)
            return r
        I.unsupported('__dict__.' + nm, node)
        return Num(H(('dictm', nm), fpof(v)))
    if isinstance(v, PyList):
        if nm == 'append':
            I.setlist(v, seqadd(I, v.c, Tup([args[0]])))
            return NONE
        if nm == 'extend':
            I.setlist(v, seqadd(I, v.c, args[0]))
            return NONE
        if nm == 'copy':
            return PyList(v.c)
        if nm == 'index' or nm == 'count':
            return Num(H(('lm', nm), fpof(v), *[fpof(a) for a in args]))
        if nm == 'insert' and isinstance(args[0], Num) and args[0].const == 0:
            I.setlist(v, seqadd(I, Tup([args[1]]), v.c))
            return NONE
        seq = I.known(v.c)
        at = axisof(args[0]) if args else -1
        if nm == 'pop' and seq and at is not None and -len(seq) <= at < len(seq):
            seq = list(seq)
            r = seq.pop(at)
            I.setlist(v, Tup(seq))
            return r
        if nm == 'insert' and seq is not None and at is not None:
            seq = list(seq)
            seq.insert(at, args[1])
            I.setlist(v, Tup(seq))
            return NONE
        if nm == 'clear':
            I.setlist(v, Tup([]))
            return NONE
        if nm == 'reverse':
            I.setlist(v, index(I, v.c, ('slice', None, None, C(-1))))
            return NONE
        if nm == 'pop' and not seq and at in (0, -1):
            r = index(I, v.c, C(at))
            I.setlist(v, index(I, v.c, ('slice', None, C(-1), None) if at else ('slice', C(1), None, None)))
            return r
        if nm not in ('sort',):
            I.unsupported('list.' + nm, node)
        I.setlist(v, Num(H(('lm', nm), fpof(v), *[fpof(a) for a in args]), rank=1))
        return Num(H(('lmr', nm), fpof(v)))
    if isinstance(v, PyDict):
        if nm == 'items':
            return Iter('items', [v])
        if nm in ('keys', 'values'):
            if v.opaque is None:
                return Tup([pyconst(k) if nm == 'keys' else x for k, x in v.d.items()])
        if nm == 'get':
            kk = constkey(args[0])
            dflt = args[1] if len(args) > 1 else NONE
            if v.opaque is None and (v.assoc or not v.d):
                hit, x = dlookup(v, args[0])
                return dflt if x is UNDEF else select(hit, x, dflt)
            if v.opaque is None and kk is not None:
                return v.d.get(kk[0], dflt)
            if v.opaque is None and isinstance(args[0], Num) and all(isinstance(x, str) for x in v.d):
                out = dflt
                for s, x in v.d.items():
                    out = select(streq(args[0], s).t, x, out)
                return out
        if nm == 'pop' and v.opaque is None and not v.assoc:
            kk = constkey(args[0])
            if kk is not None and (kk[0] in v.d or len(args) > 1):
                r = v.d.get(kk[0], args[1] if len(args) > 1 else NONE)
                I.deldict(v, kk[0], node)
                return r
        if nm == 'copy' and v.opaque is None:
            o = PyDict(v.d)
            o.assoc = v.assoc
            return o
        if nm == 'setdefault' and v.opaque is None and not v.assoc and constkey(args[0]) is not None:
            kk = constkey(args[0])[0]
            if kk not in v.d:
                I.setdict(v, kk, args[1] if len(args) > 1 else NONE)
            return v.d[kk]
        if nm == 'setdefault' and v.opaque is None and not I.loops:
            hit, x = dlookup(v, args[0])
            dflt = args[1] if len(args) > 1 else NONE
            I.log(v, '\0assoc', v.assoc)
            v.assoc = v.assoc + ((I.wmask() & ~hit, fpof(args[0]), args[0], dflt),)
            return dflt if x is UNDEF else select(hit, x, dflt)
        if nm == 'clear':
            for k in list(v.d):
                I.log(v, k, v.d[k])
                if I.wmask().all():
                    del v.d[k]
                else:
                    I.unsupported('dict clear', node)
            I.log(v, '\0assoc', v.assoc)
            wm = I.wmask()
            v.assoc = () if wm.all() else tuple((m & ~wm, f, k, x) for m, f, k, x in v.assoc)
            return NONE
        if nm == 'update':
            if args and isinstance(args[0], PyDict) and args[0].opaque is None and not args[0].assoc:
                for k, x in args[0].d.items():
                    I.setdict(v, k, x)
            elif args:
                ps = I.known(args[0]) if not isinstance(args[0], PyDict) else None
                ps = [I.known(x) for x in ps] if ps is not None else None
                if ps is not None and all(x is not None and len(x) == 2 and constkey(x[0]) is not None for x in ps):
                    for k, x in ps:
                        I.setdict(v, constkey(k)[0], x)
                else:
                    I.unsupported('dict.update', node)
            for k, x in kw.items():
                I.setdict(v, k, x)
            return NONE
        if nm not in ('get', 'keys', 'values'):
            I.unsupported('dict.' + nm, node)
        return Num(H(('dm', nm), fpof(v), *[fpof(a) for a in args]))
    if isinstance(v, Str):
        if nm == 'format' and v.const is not None:
            import re
            parts, pos, auto = [], 0, 0
            for m in re.finditer(r'\{([^{}:!]*)(?:![rs])?(?::([^{}]*))?\}', v.const):
                parts.append(v.const[pos:m.start()])
                pos = m.end()
                fld = m.group(1)
                if fld == '':
                    x = args[auto] if auto < len(args) else NONE
                    auto += 1
                elif fld.isdigit():
                    x = args[int(fld)] if int(fld) < len(args) else NONE
                else:
                    x = kw.get(fld, NONE)
                parts.extend(strparts(I, x, m.group(2) or ''))
            parts.append(v.const[pos:])
            return Str(parts)
        if nm == 'join':
            k = I.known(args[0])
            if k is not None and v.const is not None:
                parts = []
                for i, x in enumerate(k):
                    if i:
                        parts.append(v.const)
                    parts.extend(strparts(I, x, ''))
                return Str(parts)
        if v.const is not None and nm in STRM and not kw:
            py = [a.const if isinstance(a, Str) else axisof(a) for a in args]
            if None not in py:
                try:
                    r = getattr(v.const, nm)(*py)
                except (TypeError, ValueError, IndexError):
                    return Num(H(('sm', nm), v.fp, *[fpof(a) for a in args]))
                if isinstance(r, bool):
                    return V.as_bool_const(r)
                if isinstance(r, (list, tuple)):
                    t = Tup([Str([x]) for x in r])
                    return PyList(t) if isinstance(r, list) else t
                return Str([r]) if isinstance(r, str) else C(r)
        return Num(H(('sm', nm), v.fp, *[fpof(a) for a in args]))
    if isinstance(v, (Num, Arr, Tup)):
        if nm in ('flatten', 'ravel') and isinstance(v, Arr):
            return flat(v)
        if nm == 'astype':
            k = dtkind(args[0] if args else kw.get('dtype'))
            if k == '?':
                return generic(I, 'method:astype', [v] + list(args), kw)
            r = cast(I, v, k)
            if k not in (None, 'f') and isinstance(r, (Num, Arr)):
                r = _copymod.copy(r)
                r.idt = k
            return r
        if nm in ('copy', 'tolist', 'to_numpy', 'to_list', 'flatten', 'ravel', 'squeeze', 'item', 'conj'):
            if nm == 'tolist' and isinstance(v, Arr):
                return PyList(Tup(v.e))
            if nm == 'item' and isinstance(v, Arr) and len(v.e) == 1:
                return v.e[0]
            return v
        if nm in ('max', 'min', 'sum', 'mean', 'std', 'prod', 'any', 'all'):
            if args or kw:
                return NP[nm](I, [v] + list(args), kw, node)
            return reduce1(I, nm, v)
        if nm == 'reshape' and isinstance(v, Num) and v.rank == 1 and not kw:
            sh = I.known(args[0]) if len(args) == 1 else args
            if sh is not None and len(sh) == 2 and axisof(sh[0]) == -1 and axisof(sh[1]) == 1:
                return fromcols(I, [v])
        if nm in ('argmax', 'argmin'):
            return _arg(nm)(I, [v], {}, node)
        if nm == 'transpose':
            return transpose(I, v)
        if nm == 'dot':
            return dot(I, v, args[0])
        if nm == 'clip':
            return _clip(I, [v] + list(args), kw, node)
        if nm == 'round':
            return builtin_call(I, 'round', [v] + list(args), kw, node)
        if nm == 'append' and isinstance(v, Num) and f.lval is not None:
            I.assign_noalias(f.lval, seqadd(I, v, Tup([args[0]])))
            return NONE
        if nm == 'fill' and f.lval is not None:
            I.assign_noalias(f.lval, I.store_into(v, ('slice', None, None, None), args[0]))
            return NONE
        names, fps = kwfps(kw)
        I.opaque.add('method:' + nm)
        return Num(H(('nm', nm, names), fpof(v), *([fpof(a) for a in args] + fps)), rank=None)
    if isinstance(v, BoolV):
        if nm == 'nonzero':
            return Tup([_nonzero(I, [v], {}, node)])
        if nm in ('any', 'all', 'sum', 'argmax'):
            return reduce1(I, nm, Num(v.fp, rank=1)) if nm != 'argmax' else Num(H(('red', 'argmax'), v.fp))
        if nm in ('astype', 'copy'):
            return v
    names, fps = kwfps(kw)
    I.opaque.add('method:' + nm)
    return Num(H(('vm', nm, names), fpof(v), *([fpof(a) for a in args] + fps)), rank=None)
