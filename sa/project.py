"""Loading of the analysed sources: modules, classes, functions (syntax trees only)."""
import ast
import hashlib
import os


class Counting(ast.NodeTransformer):
    """`while i < n: body; i += 1` with i and n otherwise untouched is `for i in range(i, n): body`"""
    def __init__(self, fn):
        self.k = 0
        self.stores = {}            # name -> values assigned in the function
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.stores.setdefault(t.id, []).append(n.value)
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                self.stores.setdefault(x.id, []).append(None)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                self.stores.setdefault(n.target.id, []).append(n)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        self.stores.setdefault(x.id, []).append(None)

    def visit_FunctionDef(self, n):
        return n                    # nested functions are handled on their own

    visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

    def visit_While(self, w):
        self.generic_visit(w)
        while not w.orelse and w.body and isinstance(w.body[0], ast.If) and len(w.body[0].body) == 1 \
                and isinstance(w.body[0].body[0], ast.Break) and (not w.body[0].orelse or len(w.body) == 1):
            g = w.body[0]               # while a: if b: break; rest  ->  while a and not b: rest
            if len(w.body) == 1 and not g.orelse:
                break
            no = g.test.operand if isinstance(g.test, ast.UnaryOp) and isinstance(g.test.op, ast.Not) else ast.UnaryOp(ast.Not(), g.test)
            w.test = no if isinstance(w.test, ast.Constant) and w.test.value else ast.BoolOp(ast.And(), [w.test, no])
            w.body = g.orelse or w.body[1:]
            ast.copy_location(w.test, g)
            ast.fix_missing_locations(w)
        t = w.test
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Compare) and len(t.operand.ops) == 1:
            o = t.operand
            flip = {ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq}.get(type(o.ops[0]))
            if flip:
                t = ast.copy_location(ast.Compare(o.left, [flip()], o.comparators), o)
        if w.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return w
        a, op, b = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, (ast.Gt, ast.GtE)):
            a, b, op = b, a, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(op)]()
        if isinstance(op, ast.NotEq) and not isinstance(a, ast.Name):
            a, b = b, a
        if not isinstance(a, ast.Name) or not isinstance(op, (ast.Lt, ast.LtE, ast.NotEq)) or not intlike(b):
            return w
        i = a.id
        inc = None
        for k, st in enumerate(w.body):
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == i and isinstance(st.op, ast.Add) \
                    and one(st.value):
                inc = k
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == i \
                    and isinstance(st.value, ast.BinOp) and isinstance(st.value.op, ast.Add):
                x, y = st.value.left, st.value.right
                if one(x):
                    x, y = y, x
                if isinstance(x, ast.Name) and x.id == i and one(y):
                    inc = k
        if inc is None:
            return w
        rest = w.body[:inc] + w.body[inc + 1:]
        if not rest:
            return w
        names = {n.id for n in ast.walk(b) if isinstance(n, ast.Name)}
        attrs = {n.attr for n in ast.walk(b) if isinstance(n, ast.Attribute)}
        haslen = any(isinstance(n, ast.Call) for n in ast.walk(b))
        for st in rest:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and (n.id == i or n.id in names):
                    return w
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in attrs:
                    return w
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)):
                    return w
                if haslen and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                        'append', 'pop', 'extend', 'insert', 'remove', 'clear'):
                    x = n.func.value
                    if isinstance(x, ast.Name) and x.id in names or isinstance(x, ast.Attribute) and x.attr in attrs:
                        return w
        for st in w.body[inc + 1:]:
            if any(isinstance(n, ast.Name) and n.id == i for n in ast.walk(st)):
                return w
        if jumps(w.body[:inc], (ast.Continue,)) or jumps(w.body[inc + 1:], (ast.Break, ast.Return)):
            return w
        # the counter is an integer
        for v in self.stores.get(i, []):
            if v is None or not (isinstance(v, ast.AugAssign) and isinstance(v.op, ast.Add) and one(v.value) or isinstance(v, ast.expr) and
                                 (intlike(v) or isinstance(v, ast.BinOp) and any(one(x) for x in (v.left, v.right)))):
                return w
        self.k += 1
        stop = b if not isinstance(op, ast.LtE) else ast.BinOp(b, ast.Add(), ast.Constant(1))
        i0 = '\0w%d_%d' % (w.lineno, self.k)
        ld = lambda s: ast.Name(s, ast.Load())
        new = [ast.Assign([ast.Name(i0, ast.Store())], ld(i)),
               ast.For(ast.Name(i, ast.Store()), ast.Call(ld('range'), [ld(i0), stop], []), rest,
                       [ast.Assign([ast.Name(i, ast.Store())], ast.Call(ld('max'), [ld(i0), stop], []))])]
        for n in new:
            ast.copy_location(n, w)
            ast.fix_missing_locations(n)
        return new


def one(n):
    return isinstance(n, ast.Constant) and n.value == 1 and not isinstance(n.value, float)


def intlike(n):
    if isinstance(n, ast.Constant):
        return isinstance(n.value, int)
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
        return intlike(n.left) and intlike(n.right)
    if isinstance(n, ast.Call):
        return isinstance(n.func, ast.Name) and n.func.id == 'len' and len(n.args) == 1 and not any(isinstance(x, ast.Call) for x in ast.walk(n.args[0]))
    if isinstance(n, ast.Subscript):        # a.shape[0]
        return isinstance(n.value, ast.Attribute) and n.value.attr == 'shape'
    if isinstance(n, ast.Attribute):
        return isinstance(n.value, ast.Name) or n.attr == 'size' or intlike(n.value)
    return isinstance(n, ast.Name)


def jumps(stmts, kinds):
    """a jump of these kinds that leaves or restarts the enclosing loop"""
    for st in stmts:
        if isinstance(st, kinds):
            return True
        if isinstance(st, (ast.For, ast.While)):
            inner = tuple(k for k in kinds if k is ast.Return)
            if inner and jumps(st.body + st.orelse, inner):
                return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if jumps(getattr(st, f, []) or [], kinds):
                return True
        for h in getattr(st, 'handlers', []) or []:
            if jumps(h.body, kinds):
                return True
    return False


def counting(tree):
    for fn in [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]:
        c = Counting(fn)
        fn.body = [y for st in fn.body for y in (lambda r: r if isinstance(r, list) else [r])(c.visit(st))]


class ClassInfo:
    def __init__(self, name, node, mod):
        self.name = name
        self.node = node
        self.mod = mod
        self.methods = {}
        self.vars = {}
        self.props = set()
        self.statics = set()
        self.classms = set()
        self.bases = [b for b in node.bases]
        self.fattrs = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = st
                for d in st.decorator_list:
                    nm = d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '')
                    if nm in ('property', 'cached_property'):
                        self.props.add(st.name)
                    elif nm == 'staticmethod':
                        self.statics.add(st.name)
                    elif nm == 'classmethod':
                        self.classms.add(st.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.vars[t.id] = st.value
                    elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                        self.fattrs.setdefault(t.value.id, {})[t.attr] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.vars[st.target.id] = st.value


from . import records


class Module:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = records.desugar(ast.parse(src, path))
        counting(self.tree)
        self.classes = {}
        self.funcs = {}
        self.imports = {}
        self.globals = {}
        self._collect(self.tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(st.name, st, self)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = st
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ''
                if st.level:
                    pk = self.name.split('.')[:-st.level]
                    base = '.'.join(pk + ([st.module] if st.module else []))
                for a in st.names:
                    self.imports[a.asname or a.name] = base + '.' + a.name
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = st.value
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) \
                            and len(t.elts) == len(st.value.elts):
                        for a, b in zip(t.elts, st.value.elts):
                            if isinstance(a, ast.Name):
                                self.globals[a.id] = b
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.globals[st.target.id] = st.value
            elif isinstance(st, ast.If):
                self._collect(st.body)
                self._collect(st.orelse)
            elif isinstance(st, ast.Try):
                self._collect(st.body)


class Project:
    def __init__(self):
        self.mods = {}

    def load(self, name, path):
        with open(path, encoding='utf-8') as f:
            src = f.read()
        m = Module(name, path, src)
        self.mods[name] = m
        return m

    def load_package(self, pkg, root):
        base = os.path.join(root, pkg)
        n = 0
        for dp, dn, fn in os.walk(base):
            dn[:] = [d for d in sorted(dn) if d != '__pycache__']
            for f in sorted(fn):
                if f.endswith('.py'):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    self.load(rel, p)
                    n += 1
        return n

    def find_class(self, dotted):
        """dotted path 'AMAT.planet.Planet' -> ClassInfo or None"""
        mod, _, cls = dotted.rpartition('.')
        m = self.mods.get(mod)
        if m is None:
            return None
        if cls in m.classes:
            return m.classes[cls]
        if cls in m.imports and m.imports[cls] != dotted:
            return self.find_class(m.imports[cls])
        return None

    def declared(self):
        """class name -> attribute names stored by any method of the class (or through obj.attr = ... anywhere)"""
        if getattr(self, '_decl', None) is None:
            d = {}
            loose = set()
            for m in self.mods.values():
                if m.name.startswith('spec.'):
                    continue
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        if not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                            loose.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                        if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                            loose.add(n.args[1].value)
                        else:
                            self._decl = {}
                            return self._decl
                for c in m.classes.values():
                    d[c.name] = {n.attr for n in ast.walk(c.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
                    d[c.name] |= {n.name for n in ast.walk(c.node) if isinstance(n, ast.FunctionDef)}
            for m in self.mods.values():           # inherited
                for c in m.classes.values():
                    if c.bases and c.name in d:
                        d.pop(c.name)
            for k in d:
                d[k] |= loose
            self._decl = d
        return self._decl

    def digest(self):
        h = hashlib.sha256()
        for k in sorted(self.mods):
            h.update(k.encode())
            h.update(self.mods[k].src.encode())
        return h.hexdigest()
