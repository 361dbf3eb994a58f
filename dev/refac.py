"""Behaviour-preserving rewrites of the whole package, to look for alarms on code where the properties hold.

usage: refac.py TRANSFORM OUTDIR     (copies /repo/AMAT to OUTDIR/AMAT and rewrites it)
"""
import ast
import copy
import os
import random
import shutil
import sys

PURE_OPS = (ast.Add, ast.Mult)


def numeric(n):
    """expression that certainly is not a list/str concatenation"""
    return not any(isinstance(x, (ast.List, ast.Tuple, ast.ListComp, ast.JoinedStr)) or isinstance(x, ast.Constant) and isinstance(x.value, str)
                   for x in ast.walk(n))


class Swap(ast.NodeTransformer):
    """a*b -> b*a, a+b -> b+a (numbers only)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and numeric(n) or isinstance(n.op, ast.Add) and numeric(n) and not LISTY(n):
            n.left, n.right = n.right, n.left
        return n


def LISTY(n):
    for x in ast.walk(n):
        if isinstance(x, ast.Call) and ast.unparse(x.func) in ('list', 'str', 'sorted'):
            return True
        if isinstance(x, ast.Name) and (x.id.endswith('list') or x.id.endswith('str')):
            return True
    return False


class Square(ast.NodeTransformer):
    """x**2 -> x*x, x**0.5 <-> sqrt, a-b -> -(b-a), a/b -> a*(1/b)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value in (2, 2.0):
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        if isinstance(n.op, ast.Sub):
            return ast.UnaryOp(ast.USub(), ast.BinOp(n.right, ast.Sub(), n.left))
        if isinstance(n.op, ast.Div):
            return ast.BinOp(n.left, ast.Mult(), ast.BinOp(ast.Constant(1.0), ast.Div(), n.right))
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if ast.unparse(n.func) == 'np.sqrt' and len(n.args) == 1:
            return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5))
        return n


class Invert(ast.NodeTransformer):
    """if c: A else: B -> if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Flip(ast.NodeTransformer):
    """a < b -> b > a"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class Neg(ast.NodeTransformer):
    """a < b -> not (a >= b)"""
    M = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [self.M[type(n.ops[0])]()], n.comparators))
        return n


class Rename(ast.NodeTransformer):
    """rename every local variable (not parameters)"""
    def visit_FunctionDef(self, f):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(f) if x is not f):
            return f
        par = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
        gl = {n for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - par - gl
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + '_v'
        return f


class ANF(ast.NodeTransformer):
    """name every call argument / operand that is itself a call or operation: t1 = ...; t2 = f(t1)"""
    def block(self, body):
        out = []
        for st in body:
            for fld in ('body', 'orelse', 'finalbody'):
                if getattr(st, fld, None) and not isinstance(st, (ast.Lambda, ast.IfExp)):
                    setattr(st, fld, self.block(getattr(st, fld)))
            if isinstance(st, (ast.Assign, ast.Return, ast.Expr)) and st.value is not None and not isinstance(st.value, ast.Constant):
                pre = []
                st.value = self.flat(st.value, pre, top=True)
                out += pre
            out.append(st)
        return out

    def flat(self, e, pre, top=False):
        if isinstance(e, ast.BinOp):
            e.left = self.flat(e.left, pre)
            e.right = self.flat(e.right, pre)
        elif isinstance(e, ast.UnaryOp):
            if isinstance(e.operand, ast.Constant):
                return e
            e.operand = self.flat(e.operand, pre)
        elif isinstance(e, ast.Call) and not any(isinstance(a, ast.Starred) for a in e.args):
            e.args = [self.flat(a, pre) for a in e.args]
            for k in e.keywords:
                if k.arg:
                    k.value = self.flat(k.value, pre)
        else:
            return e
        if top:
            return e
        self.k += 1
        nm = '_t%d' % self.k
        pre.append(ast.Assign([ast.Name(nm, ast.Store())], e))
        return ast.Name(nm, ast.Load())

    def visit_FunctionDef(self, f):
        self.k = 0
        f.body = self.block(f.body)
        return f


class Cache(ast.NodeTransformer):
    """P = self.planetObj at the top of methods that only read it"""
    def visit_FunctionDef(self, f):
        s = ast.unparse(f)
        if 'self.planetObj' not in s or f.name == '__init__' or 'self.planetObj =' in s:
            return f

        class R(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                if n.attr == 'planetObj' and isinstance(n.value, ast.Name) and n.value.id == 'self':
                    return ast.Name('planet_', ast.Load())
                return n
        f = R().visit(f)
        k = 1 if ast.get_docstring(f) else 0
        f.body.insert(k, ast.parse('planet_ = self.planetObj').body[0])
        return f


class Extract(ast.NodeTransformer):
    """every method body moves to a private method; the public one delegates"""
    def visit_ClassDef(self, c):
        out = []
        for st in c.body:
            if isinstance(st, ast.FunctionDef) and not st.decorator_list and not st.args.vararg and not st.args.kwarg:
                g = copy.deepcopy(st)
                g.name = '_do_' + st.name.strip('_')
                g.args.defaults = []
                a = ', '.join(x.arg for x in st.args.args[1:])
                st.body = ([st.body[0]] if ast.get_docstring(st) else []) + ast.parse('return self.%s(%s)' % (g.name, a)).body
                out += [st, g]
            else:
                out.append(st)
        c.body = out
        return c


class Keywords(ast.NodeTransformer):
    """positional arguments of calls to own methods become keywords"""
    def __init__(self, sigs):
        self.sigs = sigs

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in self.sigs and not any(isinstance(a, ast.Starred) for a in n.args):
            ps = self.sigs[n.func.attr]
            if ps and len(n.args) <= len(ps) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('self', 'vehicleCopy') or \
                    ps and len(n.args) <= len(ps) and ast.unparse(n.func.value) == 'self.planetObj':
                n.keywords = [ast.keyword(p, a) for p, a in zip(ps, n.args)] + n.keywords
                n.args = []
        return n


class While(ast.NodeTransformer):
    """for i in range(n): body  ->  i = 0; while i < n: body; i += 1 (no break/continue in body)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and ast.unparse(n.iter.func) == 'range' and isinstance(n.target, ast.Name) and \
                not any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(n)) and not n.orelse and len(n.iter.args) <= 2:
            lo = n.iter.args[0] if len(n.iter.args) == 2 else ast.Constant(0)
            hi = n.iter.args[-1]
            i = n.target.id
            w = ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Name(i + '_n', ast.Load())]),
                          n.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])
            return [ast.Assign([ast.Name(i, ast.Store())], lo), ast.Assign([ast.Name(i + '_n', ast.Store())], hi), w]
        return n


class Enumerate(ast.NodeTransformer):
    """for i in range(n) -> for i, _ in enumerate(range(n))"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and ast.unparse(n.iter.func) == 'range' and isinstance(n.target, ast.Name):
            n.iter = ast.Call(ast.Name('enumerate', ast.Load()), [n.iter], [])
            n.target = ast.Tuple([n.target, ast.Name('_', ast.Store())], ast.Store())
        return n


class Comp(ast.NodeTransformer):
    """x = np.array([f(..) for v in it]) -> loop with append"""
    def block(self, body):
        out = []
        for st in body:
            for fld in ('body', 'orelse', 'finalbody'):
                if getattr(st, fld, None):
                    setattr(st, fld, self.block(getattr(st, fld)))
            if isinstance(st, ast.Assign) and len(st.targets) == 1:
                lc = [x for x in ast.walk(st.value) if isinstance(x, ast.ListComp)]
                if len(lc) == 1 and len(lc[0].generators) == 1 and not lc[0].generators[0].ifs:
                    self.k += 1
                    nm = '_acc%d' % self.k
                    g = lc[0].generators[0]

                    class S(ast.NodeTransformer):
                        def visit_ListComp(s, n):
                            return ast.Name(nm, ast.Load())
                    out.append(ast.parse('%s = []' % nm).body[0])
                    out.append(ast.For(g.target, g.iter, [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), 'append', ast.Load()),
                                                                        [lc[0].elt], []))], []))
                    st.value = S().visit(st.value)
            out.append(st)
        return out

    def visit_FunctionDef(self, f):
        self.k = 0
        f.body = self.block(f.body)
        return f


def reads(st):
    return {ast.unparse(x) for x in ast.walk(st) if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load)}


def writes(st):
    out = set()
    for t in st.targets:
        for x in ast.walk(t):
            if isinstance(x, (ast.Name, ast.Attribute)):
                out.add(ast.unparse(x))
    return out


class Reorder(ast.NodeTransformer):
    """swap neighbouring assignments that do not depend on each other (no method calls on objects involved)"""
    PUREF = ('np.', 'abs', 'min', 'max', 'float', 'int', 'len')

    def simple(self, st):
        if not isinstance(st, ast.Assign) or not all(isinstance(t, (ast.Name, ast.Attribute)) for t in st.targets):
            return False
        for x in ast.walk(st.value):
            if isinstance(x, ast.Call) and (not ast.unparse(x.func).startswith(self.PUREF) or 'random' in ast.unparse(x.func)):
                return False
        return True

    def block(self, body):
        for st in body:
            for fld in ('body', 'orelse', 'finalbody'):
                if getattr(st, fld, None):
                    setattr(st, fld, self.block(getattr(st, fld)))
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if self.simple(a) and self.simple(b):
                if not (writes(a) & reads(b) or writes(b) & reads(a) or {x for x in writes(a) if x != 'self'} & {x for x in writes(b) if x != 'self'}):
                    body[i], body[i + 1] = b, a
                    i += 1
            i += 1
        return body

    def visit_FunctionDef(self, f):
        f.body = self.block(f.body)
        return f


class Ternary(ast.NodeTransformer):
    """if c: x = a else: x = b -> x = a if c else b, and back"""
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.orelse) == 1 and all(isinstance(s, ast.Assign) and len(s.targets) == 1 for s in (n.body[0], n.orelse[0])) \
                and ast.unparse(n.body[0].targets[0]) == ast.unparse(n.orelse[0].targets[0]):
            return ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        return n


class Guard(ast.NodeTransformer):
    """if c: A else: B at the end of a function -> early return"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        last = f.body[-1]
        if isinstance(last, ast.If) and last.orelse:
            f.body[-1:] = [ast.If(last.test, last.body + [ast.Return(None)], []) if not isinstance(last.body[-1], ast.Return)
                           else ast.If(last.test, last.body, [])] + last.orelse
        elif len(f.body) > 1 and isinstance(last, ast.Return) and isinstance(f.body[-2], ast.If) and f.body[-2].orelse and last.value is not None:
            i = f.body[-2]
            f.body[-2:] = [ast.If(i.test, i.body + [copy.deepcopy(last)], [])] + i.orelse + [last]
        return f


class Noop(ast.NodeTransformer):
    """statements that do nothing"""
    def visit_FunctionDef(self, f):
        k = 1 if ast.get_docstring(f) else 0
        f.body[k:k] = ast.parse('_unused = 0\n_unused += 1\nif _unused < 0:\n    raise RuntimeError("never")').body
        f.body.insert(len(f.body) - 1, ast.Pass())
        return f


class Locals(ast.NodeTransformer):
    """self.x = e; later reads of self.x in the same straight-line block use a local"""
    def visit_FunctionDef(self, f):
        out = []
        known = {}
        for st in f.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1:
                class R(ast.NodeTransformer):
                    def visit_Attribute(s, n):
                        if isinstance(n.ctx, ast.Load) and ast.unparse(n) in known:
                            return ast.Name(known[ast.unparse(n)], ast.Load())
                        s.generic_visit(n)
                        return n
                if not any(isinstance(x, (ast.Lambda,)) for x in ast.walk(st.value)):
                    st.value = R().visit(st.value)
                t = st.targets[0]
                if any(isinstance(x, ast.Call) and ast.unparse(x.func).startswith('self.') for x in ast.walk(st.value)):
                    known.clear()
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                    l = '_l_' + t.attr
                    out.append(ast.Assign([ast.Name(l, ast.Store())], st.value))
                    out.append(ast.Assign([t], ast.Name(l, ast.Load())))
                    known[ast.unparse(t)] = l
                    continue
                if not isinstance(t, ast.Name):
                    known.clear()
            else:
                known.clear()
            out.append(st)
        f.body = out
        return f


class Numpy(ast.NodeTransformer):
    """library synonyms"""
    def visit_Call(self, n):
        self.generic_visit(n)
        f = ast.unparse(n.func)
        if f == 'np.radians' and len(n.args) == 1:
            n.func = ast.parse('np.deg2rad', mode='eval').body
        elif f == 'np.degrees':
            n.func = ast.parse('np.rad2deg', mode='eval').body
        elif f == 'abs':
            n.func = ast.parse('np.abs', mode='eval').body
        elif f == 'np.append' and len(n.args) == 2 and not n.keywords:
            return ast.parse('np.concatenate((np.atleast_1d(0),))', mode='eval').body if False else n
        elif f == 'max' and len(n.args) == 1:
            n.func = ast.parse('np.max', mode='eval').body
        elif f == 'np.dot' and len(n.args) == 2:
            return ast.BinOp(n.args[0], ast.MatMult(), n.args[1])
        elif f == 'np.linalg.norm' and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], (ast.Name, ast.Attribute)):
            a = n.args[0]
            return ast.Call(ast.parse('np.sqrt', mode='eval').body, [ast.Call(ast.parse('np.dot', mode='eval').body, [a, copy.deepcopy(a)], [])], [])
        return n


class Split(ast.NodeTransformer):
    """split each long method in the middle of a straight-line run: second half becomes a private method that gets the locals it needs"""
    def visit_ClassDef(self, c):
        out = []
        for st in c.body:
            out.append(st)
            if not isinstance(st, ast.FunctionDef) or st.decorator_list or len(st.body) < 6:
                continue
            if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global)) for x in ast.walk(st) if x is not st):
                continue
            k = len(st.body) // 2
            a, b = st.body[:k], st.body[k:]
            if any(isinstance(x, ast.Return) for s in a for x in ast.walk(s)):
                continue
            par = [x.arg for x in st.args.args]
            wr = {x.id for s in a for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            need = []
            for s in b:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and (x.id in wr or x.id in par[1:]) and x.id not in need:
                        need.append(x.id)
            definite = {x.id for s in a if isinstance(s, (ast.Assign, ast.With)) for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            if any(n not in definite and n not in par for n in need):
                continue
            nm = '_rest_of_' + st.name.strip('_')
            g = ast.FunctionDef(nm, ast.arguments([], [ast.arg('self')] + [ast.arg(n) for n in need], None, [], [], None, []), b, [], None, None, type_params=[]) \
                if sys.version_info >= (3, 12) else ast.FunctionDef(nm, ast.arguments([], [ast.arg('self')] + [ast.arg(n) for n in need], None, [], [], None, []), b, [], None, None)
            st.body = a + ast.parse('return self.%s(%s)' % (nm, ', '.join(need))).body
            out.append(g)
        c.body = out
        return c


class Mixin(ast.NodeTransformer):
    """half of the methods of each class move to a base class"""
    def visit_Module(self, m):
        out = []
        for st in m.body:
            if isinstance(st, ast.ClassDef) and not st.bases:
                ms = [x for x in st.body if isinstance(x, ast.FunctionDef)]
                mv = ms[::2]
                if mv and not any(isinstance(x, ast.Assign) for x in st.body):
                    out.append(ast.ClassDef('_%sBase' % st.name, [], [], mv, [], **({'type_params': []} if sys.version_info >= (3, 12) else {})))
                    st.body = [x for x in st.body if x not in mv] or [ast.Pass()]
                    st.bases = [ast.Name('_%sBase' % st.name, ast.Load())]
            out.append(st)
        m.body = out
        return m


class Func(ast.NodeTransformer):
    """methods that only compute become module functions called by the method"""
    def visit_Module(self, m):
        add = []
        for c in m.body:
            if not isinstance(c, ast.ClassDef):
                continue
            for st in c.body:
                if isinstance(st, ast.FunctionDef) and not st.decorator_list and not st.args.vararg and not st.args.kwarg and st.name != '__init__':
                    g = copy.deepcopy(st)
                    g.name = '_%s_%s' % (c.name.lower(), st.name)
                    for x in ast.walk(g):
                        if isinstance(x, ast.Name) and x.id == 'self':
                            x.id = 'obj'
                        if isinstance(x, ast.arg) and x.arg == 'self':
                            x.arg = 'obj'
                    g.args.defaults = []
                    a = ', '.join(['self'] + [x.arg for x in st.args.args[1:]])
                    st.body = ast.parse('return %s(%s)' % (g.name, a)).body
                    add.append(g)
        m.body += add
        return m


class WhileTrue(ast.NodeTransformer):
    """while c: body -> while True: if not c: break; body"""
    def visit_While(self, w):
        self.generic_visit(w)
        if w.orelse or isinstance(w.test, ast.Constant):
            return w
        return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), w.test), [ast.Break()], [])] + w.body, [])


class Consts(ast.NodeTransformer):
    """float literals become module constants"""
    def visit_Module(self, m):
        tab = {}

        class R(ast.NodeTransformer):
            def visit_FunctionDef(s, f):
                f.body = [s.visit(x) for x in f.body]
                return f

            def visit_JoinedStr(s, n):
                return n

            def visit_Constant(s, n):
                if isinstance(n.value, float):
                    return ast.Name(tab.setdefault(n.value, '_K%d' % len(tab)), ast.Load())
                return n
        m = R().visit(m)
        k = 0
        while k < len(m.body) and isinstance(m.body[k], (ast.Import, ast.ImportFrom, ast.Expr)):
            k += 1
        m.body[k:k] = [ast.Assign([ast.Name(v, ast.Store())], ast.Constant(c)) for c, v in tab.items()]
        return m


class NestIf(ast.NodeTransformer):
    """if a and b: X -> if a: if b: X (no else)"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            body = n.body
            for t in reversed(n.test.values):
                body = [ast.If(t, body, [])]
            return body[0]
        return n


class DeMorgan(ast.NodeTransformer):
    """a and b -> not (not a or not b)"""
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        if any(isinstance(v, (ast.Name, ast.Attribute, ast.Call)) for v in n.values):
            return n
        return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.values]))


class Unelif(ast.NodeTransformer):
    """if a: return.. elif b: return.. -> if a: return..; if b: return.."""
    def block(self, body):
        out = []
        for st in body:
            for fld in ('body', 'orelse', 'finalbody'):
                if getattr(st, fld, None):
                    setattr(st, fld, self.block(getattr(st, fld)))
            while isinstance(st, ast.If) and st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise)):
                rest = st.orelse
                st.orelse = []
                out.append(st)
                if len(rest) == 1:
                    st = rest[0]
                else:
                    out += rest[:-1]
                    st = rest[-1]
            out.append(st)
        return out

    def visit_FunctionDef(self, f):
        f.body = self.block(f.body)
        return f


class ZipIdx(ast.NodeTransformer):
    """for i in range(len(a)): ..a[i].. -> for i, a_i in enumerate(a): ..a_i.."""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and ast.unparse(n.iter.func) == 'range' and len(n.iter.args) == 1 and isinstance(n.target, ast.Name):
            a = n.iter.args[0]
            if isinstance(a, ast.Call) and ast.unparse(a.func) == 'len' and isinstance(a.args[0], ast.Name):
                nm, i = a.args[0].id, n.target.id
                if any(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Store) or
                       isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and ast.unparse(x.value) == nm for s in n.body for x in ast.walk(s)):
                    return n

                class R(ast.NodeTransformer):
                    def visit_Subscript(s, x):
                        s.generic_visit(x)
                        if ast.unparse(x) == '%s[%s]' % (nm, i):
                            return ast.Name(nm + '_i', ast.Load())
                        return x
                n.body = [R().visit(s) for s in n.body]
                n.iter = ast.Call(ast.Name('enumerate', ast.Load()), [ast.Name(nm, ast.Load())], [])
                n.target = ast.Tuple([ast.Name(i, ast.Store()), ast.Name(nm + '_i', ast.Store())], ast.Store())
        return n


class Fill(ast.NodeTransformer):
    """x = np.zeros(n); for i in range(n): x[i] = e  ->  x = np.array([e for i in range(n)])"""
    def block(self, body):
        for st in body:
            for fld in ('body', 'orelse', 'finalbody'):
                if getattr(st, fld, None):
                    setattr(st, fld, self.block(getattr(st, fld)))
        out = []
        for st in body:
            if isinstance(st, ast.For) and len(st.body) == 1 and isinstance(st.body[0], ast.Assign) and isinstance(st.target, ast.Name) \
                    and ast.unparse(st.iter).startswith('range('):
                t = st.body[0].targets[0]
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and ast.unparse(t.slice) == st.target.id and \
                        any(isinstance(o, ast.Assign) and ast.unparse(o.targets[0]) == t.value.id and 'zeros' in ast.unparse(o.value) for o in out) and \
                        not any(isinstance(x, ast.Name) and x.id == t.value.id for x in ast.walk(st.body[0].value)):
                    out.append(ast.Assign([ast.Name(t.value.id, ast.Store())], ast.parse('np.array([%s for %s in %s])' % (
                        ast.unparse(st.body[0].value), st.target.id, ast.unparse(st.iter)), mode='eval').body))
                    continue
            out.append(st)
        return out

    def visit_FunctionDef(self, f):
        f.body = self.block(f.body)
        return f


class Vector(ast.NodeTransformer):
    """for i in range(len(a)): x[i] = arithmetic of a[i], b[i]  ->  x[:] = arithmetic of a, b"""
    def visit_For(self, n):
        self.generic_visit(n)
        if not (isinstance(n.iter, ast.Call) and ast.unparse(n.iter).startswith('range(len(') and isinstance(n.target, ast.Name)):
            return n
        i = n.target.id
        for s in n.body:
            if not (isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and ast.unparse(s.targets[0].slice) == i):
                return n
            for x in ast.walk(s.value):
                if isinstance(x, ast.Call) and not ast.unparse(x.func) in ('np.sin', 'np.cos', 'np.sqrt', 'np.exp') or isinstance(x, ast.IfExp):
                    return n
                if isinstance(x, ast.Subscript) and ast.unparse(x.slice) != i:
                    return n

        class R(ast.NodeTransformer):
            def visit_Subscript(s, x):
                if isinstance(x.ctx, ast.Store):
                    return ast.Subscript(x.value, ast.Slice(), ast.Store())
                return x.value
        self.n = getattr(self, 'n', 0) + 1
        return [R().visit(s) for s in n.body]


class AugExp(ast.NodeTransformer):
    """x += e -> x = x + e for names"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and numeric(n.value):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n


class Pair(ast.NodeTransformer):
    """two neighbouring independent local assignments -> tuple assignment"""
    def block(self, body):
        for st in body:
            for fld in ('body', 'orelse', 'finalbody'):
                if getattr(st, fld, None):
                    setattr(st, fld, self.block(getattr(st, fld)))
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Name, ast.Attribute)) for x in (a, b)) and \
                    not any(isinstance(x, ast.Call) and not ast.unparse(x.func).startswith('np.') for x in ast.walk(a.value)) and \
                    not any(isinstance(x, ast.Call) and not ast.unparse(x.func).startswith('np.') for x in ast.walk(b.value)) and \
                    not (writes(a) & reads(b)) and ast.unparse(a.targets[0]) != ast.unparse(b.targets[0]):
                body[i:i + 2] = [ast.Assign([ast.Tuple([a.targets[0], b.targets[0]], ast.Store())], ast.Tuple([a.value, b.value], ast.Load()))]
            i += 1
        return body

    def visit_FunctionDef(self, f):
        f.body = self.block(f.body)
        return f


class FString(ast.NodeTransformer):
    """'a' + str(x) + 'b' -> f'a{x}b'"""
    def flat(self, n):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            return self.flat(n.left) + self.flat(n.right)
        return [n]

    def visit_BinOp(self, n):
        if isinstance(n.op, ast.Add):
            ps = self.flat(n)
            if any(isinstance(p, ast.Constant) and isinstance(p.value, str) for p in ps):
                vals = []
                for p in ps:
                    if isinstance(p, ast.Constant) and isinstance(p.value, str):
                        vals.append(p)
                    else:
                        if isinstance(p, ast.Call) and ast.unparse(p.func) == 'str':
                            p = p.args[0]
                        vals.append(ast.FormattedValue(p, -1, None))
                return ast.JoinedStr(vals)
        self.generic_visit(n)
        return n


class ExprHelper(ast.NodeTransformer):
    """every right-hand side moves to its own private method"""
    def visit_ClassDef(self, c):
        add = []
        for f in list(c.body):
            if not isinstance(f, ast.FunctionDef) or f.decorator_list:
                continue
            if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global)) for x in ast.walk(f) if x is not f):
                continue
            loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in f.args.args}
            par = f.args.args and f.args.args[0].arg == 'self'
            if not par:
                continue
            for st in ast.walk(f):
                if isinstance(st, ast.Assign) and isinstance(st.value, (ast.BinOp, ast.Call)) and not any(
                        isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.NamedExpr, ast.Starred)) for x in ast.walk(st.value)):
                    names = []
                    for x in ast.walk(st.value):
                        if isinstance(x, ast.Name) and x.id in loc and x.id != 'self' and x.id not in names:
                            names.append(x.id)
                    nm = '_e%d_%s' % (len(add), f.name.strip('_'))
                    g = ast.parse('def %s(self%s):\n    return 0' % (nm, ''.join(', ' + x for x in names))).body[0]
                    g.body[0].value = st.value
                    add.append(g)
                    st.value = ast.parse('self.%s(%s)' % (nm, ', '.join(names)), mode='eval').body
        c.body += add
        return c


class LoopBody(ast.NodeTransformer):
    """bodies of loops without jumps move to a private method that gets and returns the locals"""
    def visit_ClassDef(self, c):
        add = []
        for f in list(c.body):
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or not f.args.args or f.args.args[0].arg != 'self':
                continue
            if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global)) for x in ast.walk(f) if x is not f):
                continue
            loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in f.args.args}
            for st in ast.walk(f):
                if not isinstance(st, (ast.For, ast.While)):
                    continue
                if any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.ListComp, ast.GeneratorExp, ast.For, ast.While)) for s in st.body for x in ast.walk(s)):
                    continue
                w, r = [], []
                bound = {x.id for s in [st] for x in ast.walk(getattr(s, 'target', ast.Constant(0))) if isinstance(x, ast.Name)}
                for s in st.body:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Name) and x.id in loc and x.id != 'self':
                            if isinstance(x.ctx, ast.Store) and x.id not in w:
                                w.append(x.id)
                            if x.id not in r:
                                r.append(x.id)
                pre = set()
                for s in f.body:
                    if s is st:
                        break
                    if isinstance(s, ast.Assign):
                        pre |= {x.id for t in s.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
                pre |= {a.arg for a in f.args.args} | bound
                first = set()
                for s in st.body:
                    if isinstance(s, ast.Assign):
                        rd = {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)}
                        first |= {x.id for t in s.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in rd}
                args = [x for x in r if x in pre]
                if any(x not in pre and x not in first for x in r):
                    continue
                nm = '_body%d_%s' % (len(add), f.name.strip('_'))
                g = ast.parse('def %s(self%s):\n    return %s' % (nm, ''.join(', ' + x for x in args), '(%s,)' % ', '.join(w) if w else 'None')).body[0]
                g.body = st.body + g.body
                add.append(g)
                call = 'self.%s(%s)' % (nm, ', '.join(args))
                st.body = ast.parse(('(%s,) = ' % ', '.join(w) if w else '') + call).body
        c.body += add
        return c


class Closure(ast.NodeTransformer):
    """the right-hand sides move to local functions called at once"""
    def block(self, body):
        out = []
        for st in body:
            for fld in ('body', 'orelse', 'finalbody'):
                if getattr(st, fld, None):
                    setattr(st, fld, self.block(getattr(st, fld)))
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.BinOp) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(st.value)):
                self.k += 1
                g = ast.parse('def _f%d():\n    return 0' % self.k).body[0]
                g.body[0].value = st.value
                out.append(g)
                st.value = ast.parse('_f%d()' % self.k, mode='eval').body
            out.append(st)
        return out

    def visit_FunctionDef(self, f):
        self.k = 0
        f.body = self.block(f.body)
        return f


class Walk(ast.NodeTransformer):
    """hoist subexpressions used twice in one statement with a walrus: skip; x - y -> x + (-y); -x -> -1*x"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Sub):
            return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            return ast.BinOp(ast.Constant(-1), ast.Mult(), n.operand)
        return n


class Radians(ast.NodeTransformer):
    """x*np.pi/180 <-> np.radians(x)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.right, ast.Constant) and n.right.value == 180 and isinstance(n.left, ast.BinOp) and \
                isinstance(n.left.op, ast.Mult) and ast.unparse(n.left.right) == 'np.pi':
            return ast.Call(ast.parse('np.radians', mode='eval').body, [n.left.left], [])
        if isinstance(n.op, ast.Div) and ast.unparse(n.right) == 'np.pi' and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Mult) and \
                isinstance(n.left.right, ast.Constant) and n.left.right.value == 180:
            return ast.Call(ast.parse('np.degrees', mode='eval').body, [n.left.left], [])
        return n


class Slots(ast.NodeTransformer):
    """chained self attributes: self.a = self.b = e split / attributes set through setattr"""
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == 'self':
            return ast.Expr(ast.Call(ast.Name('setattr', ast.Load()), [ast.Name('self', ast.Load()), ast.Constant(n.targets[0].attr), n.value], []))
        return n


class TryFinally(ast.NodeTransformer):
    """function body in try/finally: pass"""
    def visit_FunctionDef(self, f):
        k = 1 if ast.get_docstring(f) else 0
        if len(f.body) > k:
            f.body = f.body[:k] + [ast.Try(f.body[k:], [], [], [ast.Pass()])]
        return f


class SingleExit(ast.NodeTransformer):
    """return e -> result = e; return result"""
    def visit_Return(self, n):
        if n.value is None:
            return n
        return [ast.Assign([ast.Name('result_', ast.Store())], n.value), ast.Return(ast.Name('result_', ast.Load()))]


T2 = dict(whiletrue=WhileTrue, consts=Consts, nestif=NestIf, demorgan=DeMorgan, unelif=Unelif, zipidx=ZipIdx, fill=Fill, vector=Vector, augexp=AugExp,
          pair=Pair, fstring=FString, exprhelper=ExprHelper, loopbody=LoopBody, closure=Closure, walk=Walk, radians=Radians, setattr=Slots,
          tryfinally=TryFinally, singleexit=SingleExit)

T = dict(swap=Swap, square=Square, invert=Invert, flip=Flip, neg=Neg, rename=Rename, anf=ANF, cache=Cache, extract=Extract, keywords=Keywords,
         whileloop=While, enumerate=Enumerate, comp=Comp, reorder=Reorder, ternary=Ternary, guard=Guard, noop=Noop, locals=Locals, numpy=Numpy,
         split=Split, mixin=Mixin, func=Func, **T2)

if __name__ == '__main__':
    name, dst = sys.argv[1:3]
    shutil.rmtree(os.path.join(dst, 'AMAT'), ignore_errors=True)
    shutil.copytree('/repo/AMAT', os.path.join(dst, 'AMAT'))
    for f in sorted(os.listdir(os.path.join(dst, 'AMAT'))):
        if not f.endswith('.py'):
            continue
        p = os.path.join(dst, 'AMAT', f)
        t = ast.parse(open(p).read())
        for nm in name.split('+'):
            if nm == 'keywords':
                sigs = {}
                for g in sorted(os.listdir('/repo/AMAT')):
                    if g.endswith('.py'):
                        for c in ast.parse(open('/repo/AMAT/' + g).read()).body:
                            if isinstance(c, ast.ClassDef):
                                for m in c.body:
                                    if isinstance(m, ast.FunctionDef):
                                        ps = [a.arg for a in m.args.args[1:]]
                                        sigs[m.name] = ps if sigs.get(m.name, ps) == ps else []
                x = Keywords(sigs)
            else:
                x = T[nm]()
            t = ast.fix_missing_locations(x.visit(t))
        s = ast.unparse(t)
        compile(s, p, 'exec')
        open(p, 'w').write(s)
