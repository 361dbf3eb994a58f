"""functions of the standard library (functools, itertools, operator) by what they compute, over known sequences"""
import itertools as it
from .values import Native, Str, Tup, NONE, fpof, n_neg, n_mul, bnot
from . import lib

BIN = {'add': 'Add', 'concat': 'Add', 'iadd': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'floordiv': 'FloorDiv', 'mod': 'Mod',
       'pow': 'Pow', 'matmul': 'MatMult', 'and_': 'BitAnd', 'or_': 'BitOr', 'xor': 'BitXor'}
CMP = {'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'eq': 'Eq', 'ne': 'NotEq', 'is_': 'Is', 'is_not': 'IsNot'}


def fold(I, f, xs, node):
    out = [xs[0]]
    for x in xs[1:]:
        out.append(I.call(f, [out[-1], x], {}, node))
    return out


def attrpath(I, o, path, node):
    for p in path.split('.'):
        o = I.getattr_(o, p, node)
    return o


def getter(I, args, one):
    def fn(a, k, node):
        r = [one(a[0], x, node) for x in args]
        return r[0] if len(r) == 1 else Tup(r)
    return fn


def stdcall(I, path, args, kw, node):
    """the value, or None when the call is not one of these"""
    mod, _, nm = path.partition('.')
    if mod == 'operator' and not kw:
        nm = nm.strip('_') if nm.startswith('__') else nm
        if nm in BIN and len(args) == 2:
            return I.lift(lambda x, y: lib.binop(I, BIN[nm], x, y, node), *args)
        if nm in CMP and len(args) == 2:
            return I.lift(lambda x, y: lib.cmpop(I, CMP[nm], x, y, node), *args)
        if nm == 'neg' and len(args) == 1:
            return lib.map1(I, n_neg, args[0])
        if nm == 'pos' and len(args) == 1:
            return args[0]
        if nm == 'not_' and len(args) == 1:
            return bnot(I.truth(args[0]))
        if nm == 'truth' and len(args) == 1:
            return I.truth(args[0])
        if nm == 'abs' and len(args) == 1:
            return lib.builtin_call(I, 'abs', args, {}, node)
        if nm == 'getitem' and len(args) == 2:
            return lib.index(I, args[0], args[1])
        if nm == 'itemgetter' and args:
            return Native(path, getter(I, args, lambda o, k, n: lib.index(I, o, k)), [fpof(a) for a in args])
        if nm == 'attrgetter' and args and all(isinstance(a, Str) and a.const is not None for a in args):
            return Native(path, getter(I, args, lambda o, k, n: attrpath(I, o, k.const, n)), [fpof(a) for a in args])
    if path == 'operator.methodcaller' and args and isinstance(args[0], Str) and args[0].const is not None:
        return Native(path, lambda a, k, n: I.call(I.getattr_(a[0], args[0].const, n), list(args[1:]), dict(kw), n),
                      [fpof(a) for a in args] + [fpof(v) for _, v in sorted(kw.items())])
    if path == 'functools.reduce' and len(args) in (2, 3) and not kw:
        k = I.known(args[1])
        if k is None:
            return None
        xs = list(args[2:]) + list(k)
        return fold(I, args[0], xs, node)[-1] if xs else None
    if mod == 'itertools':
        ks = [I.known(a) for a in args]
        if nm in ('chain', 'product', 'zip_longest') and any(k is None for k in ks):
            return None
        if nm == 'chain' and not kw:
            return Tup([x for k in ks for x in k])
        if nm == 'product' and set(kw) <= {'repeat'}:
            n = kw['repeat'].const if kw else 1
            return None if n is None else Tup([Tup(x) for x in it.product(*ks, repeat=int(n))])
        if nm == 'chain.from_iterable' and ks[0] is not None:
            ks = [I.known(x) for x in ks[0]]
            return None if any(k is None for k in ks) else Tup([x for k in ks for x in k])
        if nm == 'starmap' and ks[1] is not None:
            ks = [I.known(x) for x in ks[1]]
            return None if any(k is None for k in ks) else Tup([I.call(args[0], list(k), {}, node) for k in ks])
        if nm == 'pairwise' and ks[0] is not None:
            return Tup([Tup(p) for p in zip(ks[0], ks[0][1:])])
        if nm in ('combinations', 'permutations') and ks[0] is not None and not kw:
            r = [a.const for a in args[1:]]
            return None if None in r else Tup([Tup(x) for x in getattr(it, nm)(ks[0], *map(int, r))])
        if nm == 'accumulate' and ks[0] is not None and not kw and len(args) < 3:
            f = args[1] if len(args) == 2 else Native('add', lambda a, k, n: lib.binop(I, 'Add', a[0], a[1], n))
            return Tup(fold(I, f, list(ks[0]), node)) if ks[0] else Tup([])
        if nm == 'repeat' and len(args) == 2 and getattr(args[1], 'const', None) is not None:
            return Tup([args[0]] * int(args[1].const))
        if nm == 'islice' and ks[0] is not None and not kw:
            r = [None if a is NONE else a.const for a in args[1:]]
            if all(x is not None or a is NONE for x, a in zip(r, args[1:])):
                return Tup(list(it.islice(ks[0], *[None if x is None else int(x) for x in r])))
        return None
    if path == 'numpy.linalg.multi_dot' and len(args) == 1:
        k = I.known(args[0])
        if k:
            return fold(I, Native('dot', lambda a, kk, n: lib.dot(I, a[0], a[1])), list(k), node)[-1]
    if path in ('math.prod',) and args and not kw:
        k = I.known(args[0])
        if k:
            return fold(I, Native('mul', lambda a, kk, n: n_mul(lib.num(I, a[0]), lib.num(I, a[1]))), list(k), node)[-1]
    if path == 'math.dist' and len(args) == 2:
        return lib.norm(I, lib.binop(I, 'Sub', lib.toarray(I, args[0]), lib.toarray(I, args[1]), node))
    return None
