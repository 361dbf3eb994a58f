"""Interprocedural gated value numbering over Python syntax trees.

All lanes advance together through the syntax tree under a path mask (one bit
per lane); joins are per-lane selections, loops are summarised by partition
refinement over their loop-carried cells, calls to project functions are
followed, everything else becomes an uninterpreted (congruent) operation.
"""
import ast
import copy as _copy
import numpy as np
from fractions import Fraction
from . import field as F
from .field import H
from .values import *
from . import values as V
from .config import SHAPES

INTERP = None
UNROLL = 40
MAXDEPTH = 70
POSITIVE = {'RP', 'GM', 'tau', 'Vref', 'mass', 'A', 'RN', 'EARTHG', 'CPCV', 'r', 'terminal_r', 'rbar', 'rp', 'ra', 'rc', 'v', 'vc', 'vbar', 'terminal_v'}


class AnalysisError(Exception):
    pass


class Frame:
    def __init__(self, func, entry, env, mod):
        self.func = func
        self.entry = entry
        self.live = entry.copy()
        self.env = env
        self.mod = mod
        self.ret = UNDEF
        self.retmask = np.zeros(F.K, bool)
        self.globals_decl = set()
        self.nonlocal_decl = set()
        self.yields = None
        self.manager = None


class LoopCtx:
    def __init__(self, iteratom):
        self.brk = np.zeros(F.K, bool)
        self.cont = np.zeros(F.K, bool)
        self.iter = iteratom
        self.iterkey = key(iteratom.fp) if iteratom is not None else None
        self.mapcells = {}      # (id(container), key) -> True/False
        self.badreads = set()   # arrays read elsewhere than at the loop index
        self.idxbase = {}
        self.reads = []         # arrays read at the loop index


def onedict(v):
    """alternatives that are all dictionaries with the same keys, as one dictionary of alternatives"""
    if not (isinstance(v, Alt) and all(isinstance(x, PyDict) and x.opaque is None and not x.assoc and set(x.d) == set(v.alts[0][1].d) for _, x in v.alts)):
        return v
    out = PyDict(v.alts[-1][1].d)
    for m, x in v.alts[:-1]:
        out.d = {k: select(m, x.d[k], y) for k, y in out.d.items()}
    return out


class Col:
    """value number of a loop-carried cell and of its components"""
    __slots__ = ('fp', 'subs')

    def __init__(self, fp):
        self.fp = fp
        self.subs = None

    def sub(self, k):
        return self.subs[k] if self.subs is not None and k in self.subs else Col(H(('el', k), self.fp))


class Interp:
    def __init__(self, project, types=None, arrays=(), params=None, agree=False, universe=None):
        global INTERP
        INTERP = self
        V.LIVE[0] = lambda: self.mask & ~self.dead
        V.CTX.ties = {}
        self.project = project
        self.types = types or {}
        self.universe = universe or {}
        self.arrays = set(arrays)
        self.params = params or {}
        self.agree = agree
        self.positive = POSITIVE
        self.declared = project.declared()
        self.reset()
        from . import lib
        self.lib = lib

    def reset(self):
        self.full = np.ones(F.K, bool)
        self.mask = self.full
        self.dead = np.zeros(F.K, bool)
        self.deadfp = H('alive')
        self.dc = np.zeros(F.K, bool)          # lanes that never enter the loops being analysed: their values do not matter
        self.trydead = None
        self.frames = []
        self.effects = []
        self.managers = []
        self.console = False        # compare what is printed
        self.issues = []
        self.journals = []
        self.loops = []
        self.loopserial = 0
        self.trace = []
        self.reached = set()
        self.opaque = set()
        self.randn = {}
        self.seeded = {}                        # generators whose state the function sets
        self.cur = None
        self.serial = 0
        self.fncache = {}
        self.callees = set()
        self.excluded = np.zeros(F.K, bool)
        self.ignored = set()
        self.explicit = np.zeros(F.K, bool)
        self.statements = 0
        self.summaries = frozenset()
        # state that outlives a call and is not part of the documented object state
        self.views = {}                         # slices of arrays: id -> (slice, array, index)
        self.touched = set()                    # private cells read or written
        self.unset = np.zeros(F.K, bool)        # lanes that read a private attribute nobody has set yet
        self.moved = frozenset()                # attributes changed between two calls of a history
        self.gstore, self.cvars, self.defstore, self.memo, self.decs = {}, {}, {}, [], {}
        self.gorig = []

    # ------------------------------------------------------------ utilities
    ambient = F.ZERO       # context managers in force

    def issue(self, kind, msg, node=None, mask=None):
        m = self.mask if mask is None else mask
        if not m[V.SPECIAL:].any():
            return
        fr = self.frames[-1] if self.frames else None
        f = fr.mod.path if fr else '?'
        ln = getattr(node, 'lineno', None) or (self.cur.lineno if self.cur is not None else 0)
        fn = fr.func.name if fr and fr.func else '?'
        self.issues.append((kind, msg, f, ln, fn))

    def unsupported(self, what, node):
        self.issue('unsupported', what, node)
        self.opaque.add('unsupported:' + what)

    def log(self, container, k, old):
        for j in self.journals:
            j.append((container, k, old))

    def rollback(self, j):
        for container, k, old in reversed(j):
            self._rawset(container, k, old)

    @staticmethod
    def _rawset(container, k, old):
        if isinstance(container, dict):
            if old is None:
                container.pop(k, None)
            else:
                container[k] = old
        elif isinstance(container, Obj):
            if old is None:
                container.attrs.pop(k, None)
            else:
                container.attrs[k] = old
        elif isinstance(container, PyList):
            container.c = old
        elif isinstance(container, PyDict):
            if k == '\0opaque':
                container.opaque = old
            elif k == '\0assoc':
                container.assoc = old
            elif old is None:
                container.d.pop(k, None)
            else:
                container.d[k] = old

    @staticmethod
    def _rawget(container, k):
        if isinstance(container, dict):
            return container.get(k)
        if isinstance(container, Obj):
            return container.attrs.get(k)
        if isinstance(container, PyList):
            return container.c
        if isinstance(container, PyDict):
            return container.opaque if k == '\0opaque' else container.assoc if k == '\0assoc' else container.d.get(k)

    def dontcare(self, m, live):
        return (m | ~live).all()

    def wmask(self):
        """lanes a store may overwrite: those on the current path and those nobody will look at"""
        return self.mask | self.dc | (self.dead if self.trydead is None else self.trydead)

    def setvar(self, frame, name, val):
        wm = self.wmask()
        env = frame.env
        if name in frame.globals_decl:
            k = (frame.mod.name, name)
            old = self.global_name(frame.mod, name)
            self.log(self.gstore, k, self.gstore.get(k))
            self.gstore[k] = val if wm.all() else select(wm, val, UNDEF if old is None else old)
            self.touched.add(('global',) + k)
            return
        if name in frame.nonlocal_decl and frame.func is not None and frame.func.env is not None:
            env = frame.func.env
            while name not in env and '\0parent' in env:
                env = env['\0parent']
        old = env.get(name)
        if isinstance(old, dict):
            old = None
        self.log(env, name, old)
        if old is None and not self.dontcare(wm, frame.live):
            old_ = UNDEF
        else:
            old_ = old
        if old_ is None or self.dontcare(wm, frame.live):
            env[name] = val
        else:
            env[name] = select(wm, val, old_)

    def setattr_(self, obj, name, val):
        if isinstance(obj, Alt):
            for m, o in obj.alts:
                sv = self.mask
                self.mask = sv & m
                if self.mask.any():
                    self.setattr_(o, name, val)
                self.mask = sv
            return
        if isinstance(obj, Func):
            obj.attrs[name] = val
            return
        if isinstance(obj, ClassV):
            k = (obj.cls.name, name)
            old = self.getattr_(obj, name, None, quiet=True)
            self.log(self.cvars, k, self.cvars.get(k))
            wm = self.wmask()
            self.cvars[k] = val if wm.all() else select(wm, val, old)
            self.touched.add(('class',) + k)
            return
        if not isinstance(obj, Obj):
            if isinstance(obj, (Num,)):
                self.opaque.add('setattr-opaque')
            return
        if obj.lazy is not None and self.private(obj, name):
            self.touched.add((obj.cls.name, name))
        old = obj.attrs.get(name)
        wm = self.wmask()
        if old is None and obj.lazy is not None and not wm.all():
            old = self.getattr_(obj, name, None, quiet=True)
        self.log(obj, name, obj.attrs.get(name))
        birth = getattr(obj, 'birth', None)
        if old is None:
            obj.attrs[name] = val if (wm.all() or birth is not None and self.dontcare(wm, birth)) \
                else select(wm, val, UNDEF)
        elif birth is not None and self.dontcare(wm, birth):
            obj.attrs[name] = val
        else:
            obj.attrs[name] = select(wm, val, old)

    def setlist(self, lst, c):
        self.log(lst, 'c', lst.c)
        lst.c = select(self.wmask(), c, lst.c)

    def setdict(self, d, k, v):
        self.log(d, k, d.d.get(k))
        old = d.d.get(k)
        d.d[k] = v if old is None else select(self.wmask(), v, old)

    # ------------------------------------------------------------ classes
    def mro(self, cls):
        out = [cls]
        for b in cls.bases:
            v = None
            if isinstance(b, ast.Name):
                v = self.global_name(cls.mod, b.id)
            elif isinstance(b, ast.Attribute):
                s = ast.unparse(b)
                head, _, rest = s.partition('.')
                if head in cls.mod.imports:
                    ci = self.project.find_class(cls.mod.imports[head] + '.' + rest)
                    if ci:
                        v = ClassV(ci)
            if isinstance(v, ClassV):
                out += [c for c in self.mro(v.cls) if c not in out]
        return out

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c, c.methods[name]
        return None, None

    def global_name(self, mod, name):
        if name in mod.funcs:
            return Func(mod.funcs[name], mod)
        if name in mod.classes:
            return ClassV(mod.classes[name])
        if name in mod.imports:
            return self.resolve_import(mod.imports[name])
        if (mod.name, name) in self.gstore:
            return self.gstore[mod.name, name]
        if name in mod.globals:
            cache = mod.__dict__.setdefault('gcache', {})
            ck = (name, V.CTX.epoch)
            if ck in cache:
                return cache[ck]
            sv = (self.mask, self.frames)
            self.mask = self.full
            self.frames = self.frames + [Frame(None, self.full, {}, mod)]
            try:
                v = self.eval(mod.globals[name])
            finally:
                self.mask, self.frames = sv
            if isinstance(v, (PyList, PyDict)):
                self.gstore[mod.name, name] = v
                self.gorig.append((('global', mod.name, name), v, fpof(v)))
            else:
                cache[ck] = v
            return v
        return None

    def private(self, obj, name, anyframe=False):
        """is this attribute unknown to the documented object state?"""
        if not self.universe or name.startswith('\0'):
            return False
        for c in self.mro(obj.cls):
            u = self.universe.get(c.name)
            if u is None or name in u or name in c.methods:
                return False
        return anyframe or bool(self.frames) and not self.frames[-1].mod.name.startswith('spec.')

    def initial(self, obj, name):
        """value of a private attribute in an object nothing has been done with: what the constructor stores, if constant"""
        for c in self.mro(obj.cls):
            m = c.methods.get('__init__')
            if m is None:
                continue
            found = [st.value for st in ast.walk(m) if isinstance(st, ast.Assign) for t in st.targets
                     if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == 'self']
            if found:
                if len(found) == 1 and not any(isinstance(n, ast.Name) and n.id not in ('dict', 'list', 'float') for n in ast.walk(found[0])):
                    return self.evalconst(found[0], c.mod)
                return None
        return None

    def classvar(self, cls, name):
        for c in self.mro(cls):
            k = (c.name, name)
            if k in self.cvars:
                return self.cvars[k]
            if name in c.vars:
                v = self.evalconst(c.vars[name], c.mod)
                if isinstance(v, (PyList, PyDict)):
                    self.cvars[k] = v
                    self.gorig.append((('class',) + k, v, fpof(v)))
                return v
        return None

    def privatecells(self):
        """hidden state this run depends on or changes"""
        return self.touched | {k for k, v, fp in self.gorig if not (fpof(v) == fp).all()}

    def resolve_import(self, dotted):
        ci = self.project.find_class(dotted)
        if ci:
            return ClassV(ci)
        if dotted in self.project.mods:
            return Ext(dotted)
        mod, _, nm = dotted.rpartition('.')
        m = self.project.mods.get(mod)
        if m is not None:
            if nm in m.funcs or nm in m.globals or nm in m.imports:
                return self.global_name(m, nm)
        return Ext(dotted)

    # ------------------------------------------------------------ inputs
    def insym(self, path, rank=None):
        tail = path.rpartition('.')[2].rstrip("'")
        fp = H(('in', path))
        if tail in self.positive:       # positive quantity: a square of the field, so sqrt(x*x) is x
            fp = F.mul(fp, fp)
        r = Num(fp, node=('in', path), rank=rank)
        if tail in self.params:
            (k, (co, _)), = r.lin[1].items()
            pv = self.params[tail]
            V.CTX.params[k] = tuple(co * Fraction(x) for x in (pv if isinstance(pv, tuple) else (pv,)))
        return r

    def lazyobj(self, clsname, path):
        ci = None
        for m in self.project.mods.values():
            if clsname in m.classes and not m.name.startswith('spec.'):
                ci = m.classes[clsname]
                break
        if ci is None:
            raise AnalysisError('class %s not found' % clsname)
        o = Obj(ci, lazy=path)
        o.input = True
        return o

    def getattr_(self, obj, name, node=None, quiet=False):
        if isinstance(obj, Alt):
            return self.lift(lambda o: self.getattr_(o, name, node, quiet), obj)
        if isinstance(obj, Obj):
            if name in obj.attrs:
                v = obj.attrs[name]
                if isinstance(v, Alt):
                    und = np.zeros(F.K, bool)
                    rest = []
                    for m, x in v.alts:
                        if x is UNDEF:
                            und |= m
                        else:
                            rest.append((m, x))
                    if und.any() and rest:
                        bad = und & self.mask
                        if bad[V.SPECIAL:].any() and not quiet:
                            if obj.lazy is not None and self.private(obj, name):
                                self.unset = self.unset | bad
                            self.raise_lanes(bad, 'AttributeError', node, name)
                        if len(rest) == 1:
                            return rest[0][1]
                        return Alt(rest)
                return v
            if name == '__dict__':
                return ObjDict(obj)
            if name == '__class__':
                return ClassV(obj.cls)
            c, m = self.find_method(obj.cls, name)
            if m is not None:
                f = Func(m, c.mod, cls=c)
                for k, ex in c.fattrs.get(name, {}).items():
                    f.attrs[k] = ex
                if name in c.props:
                    return self.call(Bound(f, obj), [], {}, node)
                if name in c.statics:
                    return f
                if name in c.classms:
                    return Bound(f, ClassV(obj.cls))
                return Bound(f, obj)
            v = self.classvar(obj.cls, name)
            if v is not None:
                return v
            if obj.lazy is not None:
                if name in obj.sym:
                    return obj.sym[name]
                if self.private(obj, name):
                    self.touched.add((obj.cls.name, name))
                    v = self.initial(obj, name)
                    if v is not None:
                        self.log(obj, name, None)
                        obj.attrs[name] = v
                        return v
                    if quiet:
                        return UNDEF
                    self.unset = self.unset | self.mask
                    self.raise_lanes(self.mask.copy(), 'AttributeError', node, '%s.%s' % (obj.cls.name, name))
                    return Num(H(('missing', name)))
                path = obj.lazy + '.' + name + ("'" if name in self.moved else '')
                if not quiet and self.declared is not None and name not in self.declared.get(obj.cls.name, {name}) \
                        and not self.frames[-1].mod.name.startswith('spec.'):
                    self.raise_lanes(self.mask.copy(), 'AttributeError', node, '%s has no attribute %s' % (obj.cls.name, name))
                    return Num(H(('missing', name)))
                t = self.types.get((obj.cls.name, name))
                if t:
                    v = self.lazyobj(t, path)
                elif (obj.cls.name, name) in SHAPES:
                    v = Arr([self.insym('%s[%d]' % (path, i), 0) for i in range(SHAPES[obj.cls.name, name])])
                else:
                    rk = 1 if (name in self.arrays or (obj.cls.name, name) in self.arrays) else 0
                    v = self.insym(path, rk)
                obj.sym[name] = v
                obj.attrs[name] = v
                return v
            if not quiet:
                self.raise_lanes(self.mask.copy(), 'AttributeError', node, '%s.%s' % (obj.cls.name, name))
            return Num(H(('missing', name)))
        if isinstance(obj, Ext):
            p = obj.path + '.' + name
            if obj.path in self.project.mods:
                r = self.global_name(self.project.mods[obj.path], name)
                if r is not None:
                    return r
            return self.lib.extattr(self, p)
        if isinstance(obj, ClassV):
            c, m = self.find_method(obj.cls, name)
            if m is not None:
                f = Func(m, c.mod, cls=c)
                if name in c.classms:
                    return Bound(f, obj)
                return f
            v = self.classvar(obj.cls, name)
            if v is not None:
                return v
            return Num(H(('clsattr', obj.cls.name, name)))
        if isinstance(obj, Func):
            if name in obj.attrs:
                v = obj.attrs[name]
                return self.evalconst(v, obj.mod) if isinstance(v, ast.AST) else v
            if name == '__name__':
                return Str([obj.name])
            return Num(H(('fattr', name)))
        if isinstance(obj, Bound):
            return self.getattr_(obj.func, name, node, quiet)
        if isinstance(obj, SuperV):
            for c in self.mro(obj.cls)[1:]:
                if name in c.methods:
                    return Bound(Func(c.methods[name], c.mod, cls=c), obj.self_)
            return ExtM(NONE, name)
        return self.lib.valattr(self, obj, name, node)

    def evalconst(self, ex, mod):
        sv = (self.mask, self.frames)
        self.mask = self.full
        self.frames = self.frames + [Frame(None, self.full, {}, mod)]
        try:
            return self.eval(ex)
        finally:
            self.mask, self.frames = sv

    def raise_lanes(self, mask, etype, node, msg=''):
        mask = mask & ~self.dead
        if not mask.any():
            return
        if etype in ('AttributeError', 'NameError', 'UnboundLocalError', 'TypeError'):
            self.issue('raises:' + etype, msg, node, mask)
        self.dead = self.dead | mask
        self.deadfp = np.where(mask, H(('raise', etype)), self.deadfp)

    # ------------------------------------------------------------ lifting over Alt
    def lift(self, f, *args):
        idx = next((i for i, a in enumerate(args) if isinstance(a, Alt)), None)
        if idx is None:
            return f(*args)
        out = None
        sv = self.mask
        for m, x in args[idx].alts:
            mm = sv & m
            if not mm.any():
                continue
            if x is UNDEF:
                self.issue('maybe-unbound', 'value may be unassigned', None, mm)
                continue
            self.mask = mm
            r = self.lift(f, *(args[:idx] + (x,) + args[idx + 1:]))
            out = r if out is None else select(m, r, out)
        self.mask = sv
        if out is None:
            out = Num(H('noalt'))
        return out

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, mask):
        for st in stmts:
            mask = mask & ~self.dead
            if not mask.any():
                break
            self.mask = mask
            mask = self.exec(st, mask)
        return mask & ~self.dead

    def exec(self, st, mask):
        self.cur = st
        fr = self.frames[-1]
        self.statements += 1
        self.reached.add((fr.mod.name, st.lineno))
        t = type(st).__name__
        m = getattr(self, 'x_' + t, None)
        if m is None:
            self.unsupported('stmt ' + t, st)
            return mask
        r = m(st, mask)
        return mask if r is None else r

    def x_Expr(self, st, mask):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value)

    def x_Pass(self, st, mask):
        return

    def x_Import(self, st, mask):
        for a in st.names:
            nm = a.asname or a.name.split('.')[0]
            self.setvar(self.frames[-1], nm, self.resolve_import(a.name if a.asname else nm))

    def x_ImportFrom(self, st, mask):
        for a in st.names:
            self.setvar(self.frames[-1], a.asname or a.name, self.resolve_import((st.module or '') + '.' + a.name))

    def x_Global(self, st, mask):
        self.frames[-1].globals_decl |= set(st.names)

    def x_Nonlocal(self, st, mask):
        self.frames[-1].nonlocal_decl |= set(st.names)

    def deldict(self, d, k, node):
        wm = self.wmask()
        if k in d.d:
            self.log(d, k, d.d[k])
            if not wm.all():
                self.unsupported('conditional removal from a dictionary', node)
            del d.d[k]

    def x_Delete(self, st, mask):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value)
                k = self.evalkey(t.slice)
                kk = self.lib.constkey(k) if not isinstance(k, tuple) else None
                if isinstance(b, PyDict) and b.opaque is None and not b.assoc and kk is not None:
                    self.deldict(b, kk[0], st)
                elif isinstance(b, PyList) and isinstance(k, Num) and k.const in (0, -1) and self.known(b.c):
                    seq = self.known(b.c)
                    self.setlist(b, Tup(seq[1:] if k.const == 0 else seq[:-1]))
                else:
                    self.unsupported('del', st)

    def x_FunctionDef(self, st, mask):
        fr = self.frames[-1]
        f = Func(st, fr.mod, env=self.closure(fr))
        f.defaults = self.eval_defaults(st.args)
        self.setvar(fr, st.name, f)

    def closure(self, fr):
        if fr.func is not None and fr.func.env is not None and '\0parent' not in fr.env:
            fr.env['\0parent'] = fr.func.env
        return fr.env

    def x_Assign(self, st, mask):
        v = self.eval(st.value)
        self.mask = mask & ~self.dead
        if not self.mask.any():
            return
        for t in st.targets:
            self.assign(t, v, st)

    def x_AnnAssign(self, st, mask):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value), st)

    def x_AugAssign(self, st, mask):
        cur = self.eval(st.target)
        rhs = self.eval(st.value)
        self.mask = mask & ~self.dead
        if isinstance(cur, PyList) and isinstance(st.op, ast.Add):
            self.setlist(cur, self.seqadd(cur, rhs))
            return
        r = self.binop(st.op, cur, rhs, st)
        if isinstance(cur, Arr) or isinstance(cur, Num) and cur.rank is not None and cur.rank >= 1:
            if isinstance(st.target, (ast.Name, ast.Attribute)):
                if isinstance(r, (Num, Arr, Tup)) and len(self.trace) < 200000:
                    self.trace.append((self.frames[-1].mod.path, st.lineno, ast.unparse(st.target), r))
                self.inplace(st.target, cur, r)
                return
        self.assign(st.target, r, st)

    def assign(self, t, v, st=None):
        fr = self.frames[-1]
        if isinstance(t, ast.Name):
            if len(self.trace) < 200000 and isinstance(v, (Num, Arr, Tup)):
                self.trace.append((fr.mod.path, t.lineno, t.id, v))
            self.setvar(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            if isinstance(v, (Num, Arr, Tup)) and len(self.trace) < 200000:
                self.trace.append((fr.mod.path, t.lineno, ast.unparse(t), v))
            self.setattr_(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.assign_sub(t, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.unsupported('target ' + type(t).__name__, t)

    def unpack(self, elts, v):
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        n = len(elts)
        if star is not None:
            seq = self.known(v)
            if seq is None:
                for i, e in enumerate(elts):
                    self.assign(e, self.subscript(v, C(i)))
                return
            k = len(seq) - (n - 1)
            vals = list(seq[:star]) + [PyList(Tup(seq[star:star + k]))] + list(seq[star + k:])
        else:
            vals = [self.subscript(v, C(i)) for i in range(n)]
        for e, x in zip(elts, vals):
            self.assign(e, x)

    def record(self, o):
        """the tuple an object of a named tuple type is, else None"""
        n = o.cls.vars.get('__fields__') if o.cls is not None else None
        return Tup([self.getattr_(o, x.value) for x in n.elts]) if n is not None else None

    def known(self, v):
        """python sequence of element values if statically known, else None"""
        if isinstance(v, PltV) or isinstance(v, ExtM) and isinstance(v.recv, PltV):
            return ()           # parts of a plot's decoration
        if isinstance(v, (Tup, Arr)):
            return v.e
        if isinstance(v, Obj):
            r = self.record(v)
            return r.e if r is not None else None
        if isinstance(v, PyList):
            return self.known(v.c)
        if isinstance(v, Iter):
            return self.lib.iter_known(self, v)
        if isinstance(v, Num) and v.node is not None and v.node[0] == 'odesol' and v.node[2] == 'y' and v.node[1][3]:
            return tuple(self.lib.ode_comp(self, v.node[1], j) for j in range(v.node[1][3]))
        if isinstance(v, PyDict) and v.opaque is None:
            return tuple(self.lib.pyconst(k) for k in v.d)
        if isinstance(v, Str) and v.const is not None:
            return tuple(Str([ch]) for ch in v.const)
        return None

    def assign_sub(self, t, v):
        base = self.eval(t.value)
        k = self.evalkey(t.slice)
        if isinstance(base, (Ext, ExtM, PltV)):     # settings of a library
            return

        def store(b):
            if isinstance(b, PyList):
                if isinstance(b.c, Tup) and isinstance(k, Num) and k.const is not None and k.const.denominator == 1 \
                        and -len(b.c.e) <= k.const < len(b.c.e):
                    e = list(b.c.e)
                    e[int(k.const)] = v
                    self.setlist(b, Tup(e))
                    return b
                self.setlist(b, self.store_into(b.c, k, v))
                return b
            if isinstance(b, PyDict):
                kk = self.lib.constkey(k)
                if kk is not None:
                    self.setdict(b, kk[0], v)
                elif b.opaque is None and not isinstance(k, tuple) and not self.loops:
                    self.log(b, '\0assoc', b.assoc)
                    b.assoc = b.assoc + ((self.wmask(), fpof(k), k, v),)
                else:
                    self.log(b, '\0opaque', b.opaque)
                    b.opaque = Num(H('dset', fpof(b.opaque) if b.opaque is not None else F.ZERO, self.keyfp(k), fpof(v)))
                return b
            return self.store_into(b, k, v)
        if isinstance(base, ObjDict):
            kk = self.lib.constkey(k)
            if kk is not None and isinstance(kk[0], str):
                self.setattr_(base.o, kk[0], v)
            else:
                self.unsupported('__dict__ store', t)
            return
        if isinstance(base, (PyList, PyDict)):
            store(base)
            return
        new = self.lift(store, base)
        self.note_map(t, k)
        self.inplace(t.value, base, new)

    # ---- arrays are shared: a store into one is seen through every name bound to it
    def holders(self, v):
        """cells (frame variables, attributes of reachable objects) bound to this very array"""
        out, seen, todo = [], set(), []
        for f in self.frames:
            e = f.env
            while e is not None and id(e) not in seen:
                seen.add(id(e))
                todo.append(e)
                e = e.get('\0parent')
            e = f.func.env if f.func is not None else None
            while e is not None and id(e) not in seen:
                seen.add(id(e))
                todo.append(e)
                e = e.get('\0parent')
        todo.append(self.gstore)
        todo.append(self.cvars)
        while todo:
            c = todo.pop()
            for k, x in list((c if isinstance(c, dict) else c.attrs).items()):
                if x is v:
                    out.append((c, k))
                elif isinstance(x, Obj) and id(x) not in seen:
                    seen.add(id(x))
                    todo.append(x)
        return out

    def inplace(self, target, old, new):
        """store of `new` into the array `old` that `target` evaluates to"""
        shared = isinstance(old, Arr) or isinstance(old, Num) and old.rank is not None and old.rank >= 1
        cells = self.holders(old) if shared and isinstance(target, (ast.Name, ast.Attribute, ast.Subscript)) else []
        own = None
        vw = self.views.get(id(old)) if isinstance(new, Num) else None
        if vw is not None and vw[0] is old:
            root = self.store_into(vw[1], vw[2], new)
            if isinstance(root, Num) and root is not new:
                wm = self.wmask()
                for c, k in self.holders(vw[1]):
                    self.log(c, k, vw[1])
                    self._rawset(c, k, root if wm.all() else select(wm, root, vw[1]))
                    if isinstance(c, Obj) and c.lazy is not None and self.private(c, k):
                        self.touched.add((c.cls.name, k))
                self.views[id(new)] = (new, root, vw[2])
        if isinstance(target, ast.Name):
            own = (self.frames[-1].env, target.id)
            if target.id not in own[0]:
                own = next(((c, k) for c, k in cells if isinstance(c, dict) and k == target.id), own)
        elif isinstance(target, ast.Attribute):
            o = self.eval(target.value)
            if isinstance(o, Obj):
                own = (o, target.attr)
        if not cells or own is None or not any(c is own[0] and k == own[1] for c, k in cells):
            self.assign_noalias(target, new)
            return
        others = [(c, k) for c, k in cells if not (c is own[0] and k == own[1])]
        if isinstance(target, ast.Name) and own[0] is not self.frames[-1].env:
            wm = self.wmask()
            self.log(own[0], own[1], old)
            self._rawset(own[0], own[1], new if wm.all() else select(wm, new, old))
        else:
            self.assign_noalias(target, new)
        v = self._rawget(*own)
        for c, k in others:
            self.log(c, k, old)
            self._rawset(c, k, v)
            if isinstance(c, Obj) and c.lazy is not None and self.private(c, k):
                self.touched.add((c.cls.name, k))
            for lp in self.loops:
                m = lp.mapcells.get((id(own[0]), own[1]))
                if m is not None:
                    lp.mapcells[id(c), k] = m

    def fresh(self, v, *args):
        """an operation that returns one of its operands unchanged still makes a new array"""
        if isinstance(v, (Num, Arr)) and (isinstance(v, Arr) or v.rank is None or v.rank >= 1) and any(v is a for a in args):
            return _copy.copy(v)
        return v

    def note_map(self, t, k):
        lp = self.curloop()
        if lp is None:
            return
        cell = self.cellof(t.value)
        if cell is None:
            return
        own = self.is_iter(k)
        for lp in self.loops:
            if lp is own:
                lp.mapcells.setdefault(cell, True)
            else:
                lp.mapcells[cell] = False

    def curloop(self):
        return self.loops[-1] if self.loops else None

    def cellof(self, ex):
        if isinstance(ex, ast.Name):
            env = self.frames[-1].env
            return (id(env), ex.id)
        if isinstance(ex, ast.Attribute):
            o = self.eval(ex.value)
            if isinstance(o, Obj):
                return (id(o), ex.attr)
        return None

    def is_iter(self, k):
        if isinstance(k, Num) and k.const is None:
            for lp in self.loops:
                if lp.iterkey is not None and (k.fp == lp.iter.fp).all():
                    return lp
        return None

    def assign_noalias(self, target, v):
        if isinstance(target, (ast.Name, ast.Attribute, ast.Subscript)):
            self.assign(_as_store(target), v)

    def store_into(self, b, k, v):
        """functional array update"""
        idt = getattr(b, 'idt', None)
        if idt is not None:
            r = self.store_into1(b, k, self.lib.stored(self, b, v))
            if isinstance(r, (Num, Arr)):
                r = _copy.copy(r) if r is v else r
                r.idt = idt
            return r
        return self.store_into1(b, k, v)

    def store_into1(self, b, k, v):
        if isinstance(k, tuple) and k[0] == 'slice' and all(x is None or x is NONE for x in k[1:]):
            if isinstance(b, Arr) and not isinstance(v, (Arr, Tup, PyList)):
                return Arr([v for _ in b.e])
            if isinstance(v, (PyList, Tup)):
                return self.lib.toarray(self, v)
            if isinstance(v, Num) and v.rank == 0:
                r = Num(v.fp, const=v.const, lin=v.lin, rad=v.rad, node=('atom', 'bcast', (v,)), rank=1)
                r.node = ('ew', 'add', (v, Num(F.ZERO, const=Fraction(0), node=('atom', 'fill', (b,)), rank=1)))
                return r
            return v
        if isinstance(k, BoolV) and isinstance(b, Num) and k.const is None:
            vv = self.lib.unmask(self.lib.num(self, v), k)
            return select(k.t, Num(vv.fp, const=vv.const, lin=vv.lin, rad=vv.rad, node=vv.node, rank=b.rank), b)
        if isinstance(b, Arr):
            if isinstance(k, Num) and k.const is not None and k.const.denominator == 1 and -len(b.e) <= k.const < len(b.e):
                e = list(b.e)
                e[int(k.const)] = v
                return Arr(e)
            if isinstance(k, Tup) and len(k.e) == 2 and all(isinstance(x, Num) and x.const is not None for x in k.e):
                i, j = (int(x.const) for x in k.e)
                if -len(b.e) <= i < len(b.e) and isinstance(b.e[i], Arr):
                    row = list(b.e[i].e)
                    row[j] = v
                    e = list(b.e)
                    e[i] = Arr(row)
                    return Arr(e)
        if self.is_iter(k) is not None and isinstance(b, Num):
            if isinstance(v, BoolV):
                v = self.lib.num(self, v)
            if isinstance(v, Num):
                return Num(v.fp, const=v.const, lin=v.lin, rad=v.rad, node=v.node, rank=1)
            if isinstance(v, PyList):
                v = v.c
            if isinstance(v, (Arr, Tup)):
                return Num(fpof(v), rank=2, node=('rows', (v,)))
        bn = fpof(b)
        kf = self.keyfp(k)
        old = b if isinstance(b, Num) else None
        r = Num(H('setidx', bn, kf, fpof(v)), rank=old.rank if old is not None else 1)
        r.node = ('setidx', (b, k, v))
        return r

    def keyfp(self, k):
        if isinstance(k, tuple) and k[0] == 'slice':
            parts = []
            for i, x in enumerate(k[1:]):
                if x is None or x is NONE:
                    x = [C(0), NONE, C(1)][i]
                parts.append(fpof(x))
            return H('slicekey', *parts)
        if isinstance(k, tuple) and k[0] == 'keys':
            return H(('keys', len(k[1])), *[self.keyfp(x) for x in k[1]])
        return fpof(k)

    def evalkey(self, s):
        if isinstance(s, ast.Slice):
            return ('slice', self.eval(s.lower) if s.lower else None,
                    self.eval(s.upper) if s.upper else None,
                    self.eval(s.step) if s.step else None)
        if isinstance(s, ast.Tuple):
            ks = [self.evalkey(x) for x in s.elts]
            if all(isinstance(x, Num) for x in ks):
                return Tup(ks)
            return ('keys', ks)
        if isinstance(s, ast.Constant) and s.value is Ellipsis:
            return ('slice', None, None, None)
        if isinstance(s, ast.Index):        # pragma: no cover (old ASTs)
            return self.evalkey(s.value)
        v = self.eval(s)
        return ('slice',) + v.parts if isinstance(v, SliceV) else v

    # ---- control flow
    def x_If(self, st, mask):
        c = self.truth(self.eval(st.test))
        mask = mask & ~self.dead
        m1, m2 = mask & c.t, mask & ~c.t
        if m1.any():
            m1 = self.exec_block(st.body, m1)
        if m2.any():
            m2 = self.exec_block(st.orelse, m2)
        return m1 | m2

    def x_Return(self, st, mask):
        v = self.eval(st.value) if st.value is not None else NONE
        mask = mask & ~self.dead
        fr = self.frames[-1]
        fr.ret = v if fr.ret is UNDEF else select(mask, v, fr.ret)
        fr.retmask = fr.retmask | mask
        fr.live = fr.live & ~mask
        return np.zeros(F.K, bool)

    def x_Raise(self, st, mask):
        nm = 'Exception'
        e = st.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            nm = e.id
        elif isinstance(e, ast.Attribute):
            nm = e.attr
        self.explicit = self.explicit | (mask & ~self.dead)
        self.raise_lanes(mask, nm, st, 'explicit')
        return np.zeros(F.K, bool)

    def x_Assert(self, st, mask):
        c = self.truth(self.eval(st.test))
        bad = mask & ~c.t
        if bad.any():
            self.raise_lanes(bad, 'AssertionError', st)

    def x_Break(self, st, mask):
        lp = self.loopframe()
        lp.brk = lp.brk | mask
        return np.zeros(F.K, bool)

    def x_Continue(self, st, mask):
        lp = self.loopframe()
        lp.cont = lp.cont | mask
        return np.zeros(F.K, bool)

    def loopframe(self):
        return self.frames[-1].loopstack[-1]

    def x_With(self, st, mask):
        old = self.ambient
        m = self.withitems(st.items, st.body, mask)
        self.ambient = old
        return m

    def withitems(self, items, body, mask):
        if not items:
            return self.exec_block(body, mask)
        it = items[0]
        v = self.eval(it.context_expr)
        if isinstance(v, Manager):                  # generator: its body runs around the block
            outer = list(self.frames)
            flow = []

            def block(value):
                inner = self.frames
                self.frames = outer
                m0 = self.mask & mask & ~self.dead
                try:
                    self.mask = m0
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, value)
                    flow.append(self.withitems(items[1:], body, m0))
                finally:
                    self.frames = inner
                self.mask = m0 & ~self.dead         # the rest of the generator runs however the block was left
            self.managers.append(block)
            n = len(self.managers)
            self.mask = mask
            self.inline(v.func, v.args, v.kw, None, raw=True, manager=block)
            del self.managers[n - 1:]
            out = np.zeros(F.K, bool)
            for f in flow:
                out = out | f
            return out & ~self.dead
        if isinstance(v, Obj) and self.find_method(v.cls, '__enter__')[1] is not None:
            r = self.call(self.getattr_(v, '__enter__'), [], {}, None)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r)
            m = self.withitems(items[1:], body, mask)
            self.mask = mask & ~self.dead
            if self.mask.any():
                self.call(self.getattr_(v, '__exit__'), [NONE, NONE, NONE], {}, None)
            return m & ~self.dead
        if it.optional_vars is not None:
            self.assign(it.optional_vars, Num(H('ctx', fpof(v))))
        nm = v.node[1] if isinstance(v, Num) and v.node is not None and v.node[0] == 'atom' else ''
        if not (isinstance(nm, str) and nm.startswith(('ext:numpy.errstate', 'ext:contextlib.', 'ext:warnings.'))) and not isinstance(v, PltV):
            self.ambient = H('ambient', self.ambient, fpof(v))
        return self.withitems(items[1:], body, mask)

    def x_Try(self, st, mask):
        dead0, dfp0, td0 = self.dead, self.deadfp, self.trydead
        handlers = [h for h in st.handlers if not (isinstance(h.body[0], ast.Raise) and h.body[0].exc is None)]
        if handlers:                    # a handler that only re-raises changes nothing
            self.trydead = dead0 if td0 is None else td0
        m = self.exec_block(st.body, mask)
        self.trydead = td0
        died = self.dead & ~dead0 & mask
        if died.any() and handlers:
            self.dead = self.dead & ~died
            self.deadfp = np.where(died, dfp0, self.deadfp)
            self.issues = [i for i in self.issues if not i[0].startswith('raises:')]
            h = handlers[0]
            if h.name:
                self.mask = died
                self.setvar(self.frames[-1], h.name, Num(H('exc')))
            self.mask = died
            mh = self.exec_block(h.body, died)
        else:
            mh = np.zeros(F.K, bool)
        if m.any() and st.orelse:
            m = self.exec_block(st.orelse, m)
        m = m | mh
        if st.finalbody:                # runs however the block was left
            mf = mask & ~self.dead
            self.mask = mf
            m = m & self.exec_block(st.finalbody, mf)
        return m

    def x_For(self, st, mask):
        it = self.eval(st.iter)
        self.mask = mask & ~self.dead
        fr = self.frames[-1]
        if isinstance(it, Alt):
            out = np.zeros(F.K, bool)       # the alternatives are taken on different inputs
            for m, x in it.alts:
                mm = mask & m & ~self.dead
                if mm.any():
                    self.mask = mm
                    out = out | self.forloop(st, mm, x)
            return out & ~self.dead
        return self.forloop(st, mask, it)

    def forloop(self, st, mask, it):
        seq = self.known(it)
        if seq is not None and len(seq) <= UNROLL:
            lp = LoopCtx(None)
            self.pushloop(lp)
            flow = mask
            brkall = np.zeros(F.K, bool)
            for x in seq:
                if not flow.any():
                    break
                self.mask = flow
                self.assign(st.target, x)
                lp.brk = np.zeros(F.K, bool)
                lp.cont = np.zeros(F.K, bool)
                f = self.exec_block(st.body, flow)
                brkall = brkall | lp.brk
                flow = (f | lp.cont) & ~lp.brk & ~self.dead
            self.poploop()
            if st.orelse and flow.any():
                flow = self.exec_block(st.orelse, flow)
            return (flow | brkall) & ~self.dead
        return self.symloop(st, mask, it=it)

    def x_While(self, st, mask):
        # constant trip count?
        j = []
        self.journals.append(j)
        snap = self.snapshot()
        lp = LoopCtx(None)
        ok = True
        flow = mask
        brkall = np.zeros(F.K, bool)
        self.pushloop(lp)
        n = 0
        while True:
            self.mask = flow
            c = self.truth(self.eval(st.test))
            if c.const is None or n >= UNROLL:
                ok = False
                break
            if not c.const:
                break
            lp.brk = np.zeros(F.K, bool)
            lp.cont = np.zeros(F.K, bool)
            f = self.exec_block(st.body, flow)
            if lp.brk.any() and n == 0 and isinstance(st.test, ast.Constant):
                ok = False
                break
            brkall = brkall | lp.brk
            flow = (f | lp.cont) & ~self.dead
            n += 1
            if not flow.any():
                break
            if isinstance(st.test, ast.Constant):
                ok = False
                break
        self.poploop()
        self.journals.remove(j)
        if ok:
            self.trydead = snap[7]
            return (flow | brkall) & ~self.dead
        self.rollback(j)
        self.restore(snap)
        return self.symloop(st, mask)

    def pushloop(self, lp):
        fr = self.frames[-1]
        if not hasattr(fr, 'loopstack'):
            fr.loopstack = []
        fr.loopstack.append(lp)
        if lp.iter is not None:
            self.loops.append(lp)

    def poploop(self):
        lp = self.frames[-1].loopstack.pop()
        if lp.iter is not None:
            self.loops.remove(lp)

    def snapshot(self):
        td = self.trydead
        if td is None:
            self.trydead = self.dead        # lanes that die from here on may come back to life
        return (len(self.effects), len(self.issues), dict(self.randn), self.dead, self.deadfp,
                [(f, f.ret, f.retmask, f.live) for f in self.frames], len(self.trace), td)

    def restore(self, s):
        del self.effects[s[0]:]
        del self.issues[s[1]:]
        self.randn = dict(s[2])
        self.dead, self.deadfp, self.trydead = s[3], s[4], s[7]
        for f, r, rm, lv in s[5]:
            f.ret, f.retmask, f.live = r, rm, lv
        del self.trace[s[6]:]

    # ---- symbolic loops
    def unchanged(self, o, iv, nx, sy):
        """components that no iteration changes keep their initial value"""
        if isinstance(o, (Arr, Tup)) and all(type(x) is type(o) and len(x.e) == len(o.e) for x in (iv, nx, sy)):
            return type(o)([i if same(n, s).all() else self.unchanged(x, i, n, s) for x, i, n, s in zip(o.e, iv.e, nx.e, sy.e)])
        if isinstance(o, PyDict) and all(isinstance(x, PyDict) and set(x.d) == set(o.d) for x in (iv, nx, sy)):
            return PyDict({k: iv.d[k] if same(nx.d[k], sy.d[k]).all() else self.unchanged(x, iv.d[k], nx.d[k], sy.d[k]) for k, x in o.d.items()})
        return o

    def column(self, tag, iv, *rest):
        """the value number a loop symbol is named by, component by component for sequences and dictionaries: a bundle of variables
        is numbered as the variables would be"""
        iv = UNDEF if iv is None else iv
        col, vals, extra = (rest[0], rest[1:2], rest[2:]) if isinstance(tag, str) and tag == 'lout' else (None, rest, ())
        def build(col, iv, vals):
            fp = H(tag, *([col.fp] if col is not None else []), *[fpof(UNDEF if x is None else x) for x in vals], *extra, fpof(iv))
            a = iv.c if isinstance(iv, PyList) else iv
            b = [x.c if isinstance(x, PyList) else x for x in vals]
            if a is UNDEF and b:
                a = b[0]
            keys = None
            if isinstance(a, (Arr, Tup)) and all(isinstance(x, (Arr, Tup)) and len(x.e) == len(a.e) for x in b):
                keys = range(len(a.e))
            elif isinstance(a, PyDict) and a.opaque is None and not a.assoc and \
                    all(isinstance(x, PyDict) and set(x.d) == set(a.d) and x.opaque is None and not x.assoc for x in b):
                keys = a.d
            c = Col(fp)
            if keys is not None:
                get = lambda v, k: UNDEF if v is UNDEF else v.d[k] if isinstance(v, PyDict) else v.e[k]
                ivc = iv.c if isinstance(iv, PyList) else iv
                c.subs = {k: build(None if col is None else col.sub(k), get(ivc, k), [get(x, k) for x in b]) for k in keys}
            return c
        return build(col, iv, vals)

    def symval(self, init, nxt, col, rankhint=None):
        """symbol standing for the value of a loop-carried cell at the loop head"""
        r = self.symval1(init, nxt, col, rankhint)
        k = getattr(init, 'idt', None)
        if k is not None and isinstance(r, (Num, Arr)) and r is not init:
            r.idt = k
        return r

    def symval1(self, init, nxt, col, rankhint=None):
        if flaglike(init) and flaglike(nxt):
            fp = H('lsymb', col.fp)
            return BoolV(fp % np.uint64(2) == 0, fp, rank=getattr(init, 'rank', 0))
        if isinstance(init, Alt) or init is None or init is UNDEF or init is NONE or isinstance(init, (Str, BoolV)):
            if isinstance(nxt, (Arr, Tup)) and init in (None, UNDEF):
                return self.symval(nxt, nxt, col)
            if isinstance(nxt, (Obj, Func, Bound, Ext, ClassV)):
                return nxt if init is None or init is UNDEF else init
            if isinstance(nxt, PyList):
                return PyList(self.symval(nxt.c, nxt.c, col))
            if isinstance(init, BoolV) and isinstance(nxt, BoolV) or init in (None, UNDEF) and isinstance(nxt, BoolV):
                fp = H('lsymb', col.fp)
                return BoolV(fp % np.uint64(2) == 0, fp)
            rk = nxt.rank if isinstance(nxt, Num) else None
            return Num(H('lsym', col.fp), node=('loopsym',), rank=rk)
        if isinstance(init, (Obj, Func, Bound, Ext, ClassV, ExtM, Iter)):
            return init
        if isinstance(init, PyDict):
            if nxt is init or not isinstance(nxt, PyDict) or set(nxt.d) != set(init.d) or any(x.opaque is not None or x.assoc for x in (init, nxt)):
                return init
            return PyDict({k: self.symval(x, nxt.d[k], col.sub(k)) for k, x in init.d.items()})
        if isinstance(init, PyList):
            if nxt is init:
                return init
            c2 = nxt.c if isinstance(nxt, PyList) else nxt
            return PyList(self.symval(init.c, c2, col))
        if isinstance(init, (Arr, Tup)):
            if isinstance(nxt, type(init)) and len(nxt.e) == len(init.e):
                return type(init)([self.symval(a, b, col.sub(i)) for i, (a, b) in enumerate(zip(init.e, nxt.e))])
            return Num(H('lsym', col.fp), node=('loopsym',), rank=1)
        if isinstance(init, Num):
            rk = init.rank
            if isinstance(nxt, Num) and nxt.rank != rk:
                rk = nxt.rank if nxt.rank is not None else rk
            elif not isinstance(nxt, Num):
                rk = None
            return Num(H('lsym', col.fp), node=('loopsym',), rank=rk)
        return Num(H('lsym', col.fp), node=('loopsym',))

    def symloop(self, st, mask, it=None):
        self.loopserial += 1
        mask = mask & ~self.dead
        isfor = it is not None
        fr = self.frames[-1]
        depth = len(self.loops)
        iteratom = Num(H(('ITER', depth)), node=('iter',), rank=0, isint=True)
        owners = [f.env for f in self.frames]
        fenv = fr.env
        bound, elem, full = None, None, False
        targ_names = set()
        if isfor:
            bound, elem, full = self.lib.iter_sym(self, it, iteratom)
            for n in ast.walk(st.target):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    targ_names.add(n.id)
        startserial = Obj._n

        def iteration():
            """run one generic iteration from the current state; returns exit code lanes, lp"""
            lp = LoopCtx(iteratom)
            self.pushloop(lp)
            self.mask = mask
            dc0, self.dc = self.dc, self.dc | ~mask
            code = np.zeros(F.K, np.uint64)
            if isfor:
                self.assign(st.target, elem() if callable(elem) else elem)
                m = mask
            else:
                c = self.truth(self.eval(st.test))
                ct = c.t.copy()
                ct[:V.SPECIAL] = True          # grouping lanes always enter the generic iteration
                m = mask & ct & ~self.dead
                code = np.where(mask & ~ct, np.uint64(1), code)
                lp.testval = c
            live0 = fr.retmask
            f = self.exec_block(st.body, m)
            code = np.where(lp.brk, np.uint64(2), code)
            code = np.where(fr.retmask & ~live0, np.uint64(3), code)
            code = np.where(self.dead & mask, np.uint64(4), code)
            self.dc = dc0
            self.poploop()
            return code, lp

        def run(assign_syms):
            j = []
            self.journals.append(j)
            snap = self.snapshot()
            for (cont, k), s in assign_syms:
                self.log(cont, k, self._rawget(cont, k))
                self._rawset(cont, k, s)
            code, lp = iteration()
            cells = {}
            for cont, k, old in j:
                cells[(id(cont), k)] = (cont, k)
            nexts = {ck: onedict(self._rawget(c, k)) for ck, (c, k) in cells.items()}
            rets = [(f.ret, f.retmask) for f in self.frames]
            dead = (self.dead, self.deadfp)
            eff = self.effects[snap[0]:]
            iss = self.issues[snap[1]:]
            rnd = dict(self.randn)
            self.journals.remove(j)
            self.rollback(j)
            self.restore(snap)
            return dict(code=code, lp=lp, cells=cells, nexts=nexts, rets=rets, dead=dead, eff=eff, iss=iss, rnd=rnd)

        def relevant(cells):
            out = {}
            for ck, (c, k) in cells.items():
                if isinstance(c, dict):
                    if not any(c is e for e in owners):
                        # closure envs or frames created inside the loop
                        if not any(e.get('\0parent') is c for e in owners):
                            continue
                    if k in targ_names and c is fenv or k == '\0parent':
                        continue
                elif isinstance(c, Obj) and c.id > startserial and not c.input:
                    continue
                elif isinstance(c, (PyList, PyDict)) and getattr(c, 'c', None) is None and False:
                    continue
                out[ck] = (c, k)
            return out

        def share(ck, vals):
            """cells bound to one array before and after an iteration are bound to one array in the loop"""
            iv, nx = inits[ck], nexts.get(ck)
            if isinstance(iv, Arr) or isinstance(iv, Num) and iv.rank is not None and iv.rank >= 1:
                for c2 in cells:
                    if c2 == ck:
                        break
                    if inits[c2] is iv and nexts.get(c2) is nx and c2 in vals:
                        vals[ck] = vals[c2]
                        return True
            return False

        cells = {}
        kinds = {}
        inits = {}
        syms = {}
        nexts = {}
        cols = {}
        r = first = run([])
        used = {}
        for _ in range(4):
            new = {ck: v for ck, v in relevant(r['cells']).items() if ck not in cells}
            # lists/dicts created inside the loop never pre-exist: detect by reachability at loop head
            new = {ck: v for ck, v in new.items() if not isinstance(v[0], (PyList, PyDict)) or self.preexists(v[0], owners)}
            for ck, (c, k) in new.items():
                cells[ck] = (c, k)
                iv = self._rawget(c, k)
                if isinstance(c, Obj) and iv is None and c.lazy is not None:
                    iv = self.getattr_(c, k, None, quiet=True)
                inits[ck] = iv
                cols[ck] = self.column('c0', iv)
            for ck in cells:
                nexts[ck] = r['nexts'].get(ck, inits[ck])
            for ck in cells:
                syms[ck] = self.symval(inits[ck], nexts[ck], cols[ck])
                share(ck, syms)
            if not new and _ > 0 and all(type(syms[ck]) is type(used.get(ck)) for ck in cells):
                break
            used = dict(syms)
            r = run([(cells[ck], syms[ck]) for ck in cells])
        # cells advanced by a constant in every iteration
        if isfor:
            early = {}
            stay = (r['code'] == 0) & mask
            stay[:V.SPECIAL] = False
            for ck in cells:
                sy, nx = used.get(ck), r['nexts'].get(ck)
                nx = self.onlanes(nx, stay)      # on the inputs that go round again
                if isinstance(sy, Num) and isinstance(nx, Num) and isinstance(inits[ck], Num) and stay.any() and inits[ck].const is not None \
                        and isinstance(cells[ck][0], dict):
                    d = F.sub(nx.fp, sy.fp)[stay]
                    if d[0] != 0 and (d == d[0]).all():
                        cand = self.lib.small_const(int(d[0]))
                        if cand is not None:
                            early[ck] = n_add(inits[ck], n_mul(C(cand), iteratom))
            if early:
                for ck in cells:
                    syms[ck] = early.get(ck) or self.symval(inits[ck], nexts[ck], cols[ck])
                    if ck not in early:
                        share(ck, syms)
                r = run([(cells[ck], syms[ck]) for ck in cells])
        # map cells: every access in the loop goes through the iteration index
        lp = r['lp']
        mapc = {ck for ck in cells if lp.mapcells.get((ck[0], ck[1])) and (ck[0], ck[1]) not in lp.badreads}
        for ck in list(mapc):       # read elsewhere through another name
            if any(c2 not in mapc and inits[c2] is inits[ck] and nexts[c2] is nexts[ck] for c2 in cells):
                mapc.discard(ck)
        hasbreak = bool((r['code'] >= 2).any())
        if hasbreak and not isfor:
            mapc = set()
        steps = {}
        for rd in range(3):
            for ck in cells:
                if ck in mapc:
                    syms[ck] = inits[ck]
                elif ck in steps:
                    syms[ck] = n_add(inits[ck], n_mul(steps[ck], iteratom))
                else:
                    syms[ck] = self.symval(inits[ck], nexts.get(ck), cols[ck])
                    share(ck, syms)
            r = run([(cells[ck], syms[ck]) for ck in cells])
            extra = [ck for ck in relevant(r['cells']) if ck not in cells and
                     (not isinstance(r['cells'][ck][0], (PyList, PyDict)) or self.preexists(r['cells'][ck][0], owners))]
            for ck in extra:
                c, k = r['cells'][ck]
                cells[ck] = (c, k)
                iv = self._rawget(c, k)
                if isinstance(c, Obj) and iv is None and c.lazy is not None:
                    iv = self.getattr_(c, k, None, quiet=True)
                inits[ck] = iv
                cols[ck] = self.column('c0', iv)
                syms[ck] = self.symval(iv, r['nexts'].get(ck), cols[ck])
            stay = (r['code'] == 0) & mask
            stay[:V.SPECIAL] = False
            newsteps = False
            for ck in cells:
                nx = r['nexts'].get(ck, syms[ck])
                nexts[ck] = nx
                if ck in mapc:
                    continue
                sy = syms[ck]
                if ck not in steps and isinstance(sy, Num) and isinstance(nx, Num) and isinstance(inits[ck], Num) and stay.any():
                    d = F.sub(nx.fp, sy.fp)[stay]
                    if d[0] != 0 and (d == d[0]).all():
                        lin = n_sub(nx, sy).lin
                        full_ = F.sub(nx.fp, sy.fp)
                        # constant step?
                        cand = self.lib.small_const(int(d[0]))
                        if cand is not None:
                            steps[ck] = C(cand)
                            newsteps = True
                            continue
                cols[ck] = self.column('c', inits[ck], nx)
            if not (newsteps or extra) and rd >= 2:
                break
        # final state
        code = r['code']
        if isfor and not full and self.walksall(r['lp'], bound):
            full = True
        bfp = fpof(bound) if bound is not None else F.ZERO
        codefp = H(('code', 'for' if isfor and not full else 'w'), code, bfp) if not (isfor and full) else H('code', code, bfp)
        stay = np.ones(F.K, bool)
        out = {}
        for ck in cells:
            nx, sy, iv = nexts[ck], syms[ck], inits[ck]
            if nx is None:
                continue
            if iv is not None and nx is not None and same(nx, sy).all() and not (ck in mapc):
                out[ck] = iv
                continue
            if isfor and full and ck not in steps:
                ex = self.exists_pattern(run, cells, syms, ck, iv, nx, mask)
                if ex is not None:
                    out[ck] = ex
                    continue
            if ck in mapc:
                cover = full or self.lib.covers(self, bound, iv, nx)
                if isfor and cover and not (code == 2).any():
                    out[ck] = nx
                else:
                    out[ck] = Num(H('partialmap', fpof(nx), fpof(iv), codefp), rank=1, node=('partialmap', (nx, iv)))
                continue
            goes = mask & (code == 0)
            ap = self.lib.append_pattern(self, sy, self.onlanes(nx, goes), iv)
            if ap is not None and isfor and not ((code != 0) & (code != 4)).any() and not self.uses_loopsym(ap, [syms[c] for c in cells if c != ck]):
                val = ap
                if isinstance(val, Num):
                    val = Num(val.fp, const=val.const, lin=val.lin, rad=val.rad, node=val.node, rank=(val.rank or 0) + 1)
                else:
                    val = Num(fpof(val), rank=2, node=('rows', (val,)))
                out[ck] = val if full else self.lib.partial(self, val, codefp)
                if full and isinstance(bound, Num):
                    V.CTX.lens[V.key(val.fp)] = bound
                if isinstance(cells[ck][0], PyList):
                    pass
                continue
            if ck in steps:
                out[ck] = Num(H('indout', fpof(iv), steps[ck].fp, codefp), node=('loopout',), rank=0)
                continue
            nc = self.onlanes(nx, mask & (code != 1)) if iv is None or self.onlanes(iv, mask) is UNDEF else None
            if isinstance(nc, (Num, BoolV, Str)) and nc.const is not None:
                out[ck] = nc        # bound by the loop only, to a constant: wherever it can be read afterwards it is that constant
                continue
            outcol = self.column('lout', iv, cols[ck], nx, codefp)
            o = self.unchanged(self.symval(iv if iv is not None else UNDEF, nx, outcol), iv, nx, sy)
            if isinstance(nx, Obj) and isinstance(cells[ck][0], dict):
                o = nx
            out[ck] = o
            share(ck, out)
        self.mask = mask
        if not isfor:
            # where the first iteration is the last one: the values it leaves; elsewhere a variable that every iteration sets to a
            # constant, or to what another variable is set to, has that value
            quit0 = first['code'] != 0
            again = mask & (code != 1)
            for ck in cells:
                nx, iv = nexts.get(ck), inits[ck]
                if ck not in out or nx is None or isinstance(nx, (PyList, PyDict, Obj)) or not isinstance(cells[ck][0], dict):
                    continue
                nc = self.onlanes(nx, again)
                if isinstance(nc, (Num, BoolV, Str)) and nc.const is not None:
                    later = nc
                else:
                    later = next((out[c2] for c2 in cells if c2 != ck and c2 in out and inits[c2] is not None and inits[c2] is not UNDEF
                                  and isinstance(inits[c2], Num) and isinstance(nx, Num) and isinstance(nexts.get(c2), Num)
                                  and nexts[c2].const is None and (nexts[c2].fp == nx.fp)[again].all() and isinstance(out[c2], Num)
                                  and (iv is None or iv is UNDEF or list(cells).index(c2) < list(cells).index(ck))), None)
                    if later is None:
                        continue
                at0 = first['nexts'].get(ck, iv)
                out[ck] = select(quit0, UNDEF if at0 is None else at0, later) if quit0[mask].any() else later
        done = []
        for ck, v in out.items():
            c, k = cells[ck]
            if v is None:
                continue
            self.log(c, k, self._rawget(c, k))
            old = self._rawget(c, k)
            if old is None or old is UNDEF:
                self._rawset(c, k, v)
            else:
                w = next((w_ for v_, o_, w_ in done if v_ is v and o_ is old), None)
                if w is None:
                    w = select(self.wmask(), v, old)
                    done.append((v, old, w))
                self._rawset(c, k, w)
        if isfor and targ_names:
            for nm in targ_names:
                self.setvar(fr, nm, Num(H(('lasttarget',), codefp, bfp)))
        # effects, issues, returns
        for e in r['eff']:
            self.effects.append(e[:-1] + (e[-1],))
        self.issues.extend(r['iss'])
        changed = [ck for ck in cells if out.get(ck) is not None and out[ck] is not inits[ck]]
        for f, (rv, rm) in zip(self.frames, r['rets']):
            newm = rm & ~f.retmask
            if newm.any() and isfor and full and f is fr and not changed and not r['eff'] and not (code == 2).any() and f.ret is UNDEF:
                # a search that returns a constant: taken exactly when some element satisfies the condition
                S = newm.copy()
                S[:V.SPECIAL] = False
                lv = lanes01(rv)
                if S.any() and (lv[S] == lv[S][0]).all():
                    x = _atlane(rv, int(np.where(S)[0][0]))
                    if x is not None:
                        rv, newm = x, V.exists(S).t & mask
                        if not newm.any():
                            continue
            if newm.any():
                wrapped = self.wrapret(rv, codefp)
                f.ret = wrapped if f.ret is UNDEF else select(newm, wrapped, f.ret)
                f.retmask = f.retmask | newm
                f.live = f.live & ~newm
                mask = mask & ~newm
        self.dead = r['dead'][0] | self.dead
        self.deadfp = np.where(r['dead'][0], r['dead'][1], self.deadfp)
        mask = mask & ~self.dead
        if st.orelse and mask.any():
            mask = self.exec_block(st.orelse, mask)
        return mask

    def exists_pattern(self, run, cells, syms, ck, iv, nx, mask):
        """a cell that keeps a constant until some element satisfies a condition, then holds another constant: the value depends
        only on whether such an element exists, however the search is written"""
        if not isinstance(iv, (Num, BoolV, NoneT)) or not isinstance(nx, (Num, BoolV, NoneT, Alt)):
            return None
        L = mask & ~self.dead
        L[:V.SPECIAL] = False
        if not L.any():
            return None

        lanes = lanes01
        f0 = lanes(iv)
        if not (f0[L] == f0[L][0]).all():
            return None
        if f0[L][0] not in (F.ZERO[0], F.ONE[0], NONE.fp[L][0]) and not (isinstance(iv, Num) and iv.const is not None):
            return None
        c0 = f0[L][0]
        # quick filter on the generic iteration
        if len(set(lanes(nx)[L].tolist()) - {int(c0)} - set(lanes(syms[ck])[L].tolist() if syms[ck] is not None else ())) > 1:
            return None

        def again(val):
            r = run([(cells[c], val if c == ck else syms[c]) for c in cells])
            return r['code'], r['nexts'].get(ck, val)
        code, n1 = again(iv)
        if (code[L] != 0).any() and (code[L] != 2).any() and not np.isin(code[L], (0, 2)).all():
            return None
        l1 = lanes(n1)
        S = (l1 != c0) & L
        if not S.any() or not (l1[S] == l1[S][0]).all():
            return None
        brk = (code == 2) & L
        if brk.any():
            if (brk != S).any():
                return None
        else:
            xs = _atlane(n1, int(np.where(S)[0][0]))
            if xs is None:
                return None
            _, n2 = again(xs)
            if not (lanes(n2)[L] == l1[S][0]).all():
                return None
        e = exists(S)
        x1 = l1[S][0]
        if {int(x1), int(c0)} == {int(F.ONE[0]), int(F.ZERO[0])} and isinstance(n1, (BoolV, Alt)):
            r = e if x1 == F.ONE[0] else bnot(e)
            return BoolV(r.t, r.fp, rank=getattr(n1, 'rank', 0))
        xs = _atlane(n1, int(np.where(S)[0][0]))
        if xs is None:
            return None
        return select(e.t, xs, iv)

    def onlanes(self, v, L):
        """the value v has on the inputs L, without the alternatives it only has elsewhere"""
        while True:
            if isinstance(v, PyList):
                return self.onlanes(v.c, L)
            if isinstance(v, Alt):
                al = [x for m, x in v.alts if (m & L).any()]
                if len(al) != 1:
                    return v
                v = al[0]
            elif isinstance(v, Num) and v.node is not None and v.node[0] == 'sel' and L.any() and \
                    (v.node[1][L].all() or not v.node[1][L].any()):
                v = v.node[2][0 if v.node[1][L].all() else 1]
            else:
                return v

    def wrapret(self, v, codefp):
        return v

    def uses_loopsym(self, v, syms):
        ids = {id(s) for s in syms if isinstance(s, Num)}
        seen = set()

        def walk(x):
            if id(x) in seen:
                return False
            seen.add(id(x))
            if id(x) in ids:
                return True
            if isinstance(x, Num) and x.node is not None:
                for part in x.node[1:]:
                    if isinstance(part, tuple):
                        for y in part:
                            if isinstance(y, Val) and walk(y):
                                return True
            if isinstance(x, (Tup, Arr)):
                return any(walk(y) for y in x.e)
            return False
        return walk(v)

    def preexists(self, container, owners):
        seen = set()

        def walk(v, d):
            if v is container:
                return True
            if d > 6 or id(v) in seen:
                return False
            seen.add(id(v))
            if isinstance(v, Obj):
                return any(walk(x, d + 1) for x in v.attrs.values())
            if isinstance(v, (Tup, Arr)):
                return any(walk(x, d + 1) for x in v.e)
            if isinstance(v, PyList):
                return walk(v.c, d + 1)
            if isinstance(v, PyDict):
                return any(walk(x, d + 1) for x in v.d.values())
            if isinstance(v, Alt):
                return any(walk(x, d + 1) for _, x in v.alts)
            if isinstance(v, Bound):
                return walk(v.self_, d + 1)
            return False
        for env in owners:
            for k, v in env.items():
                if k != '\0parent' and walk(v, 0):
                    return True
        return False

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.unsupported('expr ' + type(e).__name__, e)
            return Num(H(('unsup', ast.dump(e))), rank=None)
        return m(e)

    def e_Constant(self, e):
        return self.lib.pyconst(e.value)

    def e_Name(self, e):
        fr = self.frames[-1]
        nm = e.id
        v = fr.env.get(nm)
        if v is None:
            env = fr.func.env if fr.func is not None else None
            while env is not None and v is None:
                v = env.get(nm)
                env = env.get('\0parent')
        if v is not None:
            if v is UNDEF:
                self.issue('maybe-unbound', nm, e)
                return Num(H(('unbound', nm)))
            if isinstance(v, Alt) and any(x is UNDEF for _, x in v.alts):
                und = np.zeros(F.K, bool)
                rest = []
                for mk, x in v.alts:
                    if x is UNDEF:
                        und |= mk
                    else:
                        rest.append((mk, x))
                bad = und & self.mask
                if bad[V.SPECIAL:].any():
                    self.raise_lanes(bad, 'UnboundLocalError', e, nm)
                return self.gate(rest[0][1] if len(rest) == 1 else Alt(rest))
            return self.gate(v)
        v = self.global_name(fr.mod, nm)
        if v is not None:
            return v
        v = self.lib.builtin(self, nm)
        if v is not None:
            return v
        self.raise_lanes(self.mask.copy(), 'NameError', e, nm)
        return Num(H(('undefined', nm)))

    def gate(self, v):
        """the alternative of a merged value that is selected by the current path"""
        m = self.mask
        while isinstance(v, Num) and v.node is not None and v.node[0] == 'sel':
            sm, (a, b) = v.node[1], v.node[2]
            if not (m & ~sm).any():
                v = a
            elif not (m & sm).any():
                v = b
            else:
                break
        if isinstance(v, Alt):
            al = [(am, x) for am, x in v.alts if (am & m).any()]
            if len(al) == 1:
                return self.gate(al[0][1])
        return v

    def e_Attribute(self, e):
        return self.gate(self.getattr_(self.eval(e.value), e.attr, e))

    def e_Tuple(self, e):
        return Tup(self.elist(e.elts))

    def e_List(self, e):
        return PyList(Tup(self.elist(e.elts)))

    def e_Set(self, e):
        return Tup(self.elist(e.elts))

    def elist(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                k = self.known(v)
                if k is None:
                    self.unsupported('starred', x)
                    out.append(v)
                else:
                    out.extend(k)
            else:
                out.append(self.eval(x))
        return out

    def e_Dict(self, e):
        d = PyDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                sub = self.eval(v)
                if isinstance(sub, PyDict):
                    d.d.update(sub.d)
                continue
            kk = self.lib.constkey(self.eval(k))
            vv = self.eval(v)
            if kk is None:
                self.unsupported('dict key', e)
            else:
                d.d[kk[0]] = vv
        return d

    def e_Lambda(self, e):
        fr = self.frames[-1]
        f = Func(e, fr.mod, env=self.closure(fr))
        f.defaults = self.eval_defaults(e.args)
        return f

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        sv = self.mask
        m1, m2 = sv & c.t, sv & ~c.t
        if not m2.any():
            return self.eval(e.body)
        if not m1.any():
            return self.eval(e.orelse)
        self.mask = m1
        a = self.eval(e.body)
        self.mask = m2
        b = self.eval(e.orelse)
        self.mask = sv
        return select(c.t, a, b)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        sv = self.mask
        cur = self.eval(e.values[0])
        for x in e.values[1:]:
            c = self.truth(cur)
            go = c.t if isand else ~c.t
            m = sv & go
            if not m.any():
                break
            self.mask = m
            v = self.eval(x)
            if isinstance(cur, BoolV) and isinstance(v, BoolV):
                tv = (cur.t & v.t) if isand else (cur.t | v.t)
                st = np.sort(np.stack([cur.fp, v.fp]), axis=0)
                const = None
                if cur.const is not None and v.const is not None:
                    const = (cur.const and v.const) if isand else (cur.const or v.const)
                cur = BoolV(tv, H('and', *st) if isand else F.sub(F.ONE, H('and', *np.sort(np.stack([F.sub(F.ONE, cur.fp), F.sub(F.ONE, v.fp)]), axis=0))), const=const)
            else:
                cur = select(go, v, cur)
            self.mask = sv
        self.mask = sv
        return cur

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return bnot(self.truth(v))

        def f(x):
            if isinstance(e.op, ast.UAdd):
                return x
            if isinstance(e.op, ast.USub):
                if isinstance(x, BoolV):
                    x = self.lib.num(self, x)
                return self.lib.map1(self, n_neg, x)
            if isinstance(e.op, ast.Invert) and isinstance(x, BoolV):
                return bnot(x)
            return Num(H('invert', fpof(x)))
        return self.lift(f, v)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(e.op, a, b, e)

    def binop(self, op, a, b, node):
        return self.fresh(self.lift(lambda x, y: self.lib.binop(self, type(op).__name__, x, y, node), a, b), a, b)

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c)
            r = self.lift(lambda x, y: self.lib.cmpop(self, type(op).__name__, x, y, e), left, right)
            if res is None:
                res = r
            else:
                A, B = self.truth(res), self.truth(r)
                st = np.sort(np.stack([A.fp, B.fp]), axis=0)
                res = BoolV(A.t & B.t, H('and', *st),
                            const=(A.const and B.const) if None not in (A.const, B.const) else None)
            left = right
        return res

    def truth(self, v):
        def f(x):
            if isinstance(x, BoolV):
                return x
            if isinstance(x, Num):
                return bnot(compare('eq', x, C(0)))
            if x is NONE or x is UNDEF:
                return as_bool_const(False)
            if isinstance(x, Str):
                if x.const is not None:
                    return as_bool_const(bool(x.const))
                return as_bool_const(True)
            k = self.known(x)
            if k is not None:
                return as_bool_const(len(k) > 0)
            if isinstance(x, PyList):
                return bnot(compare('eq', Num(H('len', fpof(x.c))), C(0)))
            return as_bool_const(True)
        if isinstance(v, Alt):
            r = self.lift(f, v)
            if isinstance(r, BoolV):
                r = BoolV(r.t, r.fp)
            return r
        return f(v)

    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not self.frames[-1].env.get('super'):
            fr = self.frames[-1]
            first = fr.env.get(fr.func.node.args.args[0].arg) if fr.func.node.args.args else NONE
            return SuperV(fr.func.cls, first)
        if isinstance(e.func, ast.Attribute):
            recv = self.eval(e.func.value)
            f = self.getattr_(recv, e.func.attr, e.func)
            if isinstance(f, ExtM):
                f.lval = e.func.value
        else:
            f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                k = self.known(v)
                if k is None and isinstance(f, Ext) and f.path == 'builtins.zip' and len(e.args) == 1 and not e.keywords:
                    cs = self.lib.rowcols(self, v)
                    if cs is not None:
                        return Tup(cs)
                if k is None:
                    self.unsupported('*args', e)
                    args.append(v)
                else:
                    args.extend(k)
            else:
                args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value)
                if isinstance(v, PyDict):
                    for kk, vv in v.d.items():
                        kw[kk] = vv
                else:
                    self.unsupported('**kwargs', e)
            else:
                kw[k.arg] = self.eval(k.value)
        if not (self.mask & ~self.dead).any():
            return Num(H('deadcall'))
        return self.call(f, args, kw, e)

    def e_JoinedStr(self, e):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value)
                fmt = ''
                if p.format_spec is not None:
                    fs = self.eval(p.format_spec)
                    fmt = fs.const if isinstance(fs, Str) and fs.const is not None else '?'
                parts.extend(self.lib.strparts(self, v, fmt))
        return Str(parts)

    def e_FormattedValue(self, e):
        return Str(self.lib.strparts(self, self.eval(e.value), ''))

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_Slice(self, e):
        return Tup([self.eval(x) if x else NONE for x in (e.lower, e.upper, e.step)])

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Subscript(self, e):
        b = self.eval(e.value)
        k = self.evalkey(e.slice)
        if self.loops and not (isinstance(k, tuple) and k[0] == 'slice' and all(x is None for x in k[1:])):
            cell = self.cellof(e.value) if isinstance(e.value, (ast.Name, ast.Attribute)) else None
            if cell is not None:
                own = self.is_iter(k)
                for lp in self.loops:
                    if lp is not own:
                        lp.badreads.add(cell)
        r = self.subscript(b, k)
        if isinstance(b, Num) and isinstance(r, Num) and r is not b and not self.loops and \
                isinstance(k, tuple) and (k[0] == 'slice' or k[0] == 'keys' and all(isinstance(x, tuple) or isinstance(x, Num) and x.rank == 0 for x in k[1])):
            self.views[id(r)] = (r, b, k)        # basic indexing shares the memory
        return r

    def subscript(self, b, k):
        if isinstance(k, Alt):
            return self.lift(lambda kk: self.subscript(b, kk), k)
        return self.lift(lambda x: self.lib.index(self, (self.record(x) or x) if isinstance(x, Obj) else x, k), b)

    def comp(self, e, elt):
        fr = self.frames[-1]
        gens = e.generators
        sub = Frame(fr.func, self.mask, dict(fr.env), fr.mod)
        sub.live = self.mask
        if fr.func is not None and fr.func.env is not None:
            sub.env['\0parent'] = fr.func.env
        if hasattr(fr, 'loopstack'):
            sub.loopstack = []
        self.frames.append(sub)
        try:
            return self.comp_rec(gens, 0, elt)
        finally:
            self.frames.pop()

    def walksall(self, lp, bound):
        """the index range is that of every array walked"""
        return isinstance(bound, Num) and bool(lp.reads) and all((self.lib.length(self, b).fp == bound.fp).all() for b in lp.reads)

    def comp_rec(self, gens, i, elt):
        """returns list of values, or ('gen', Num) for symbolic"""
        if i == len(gens):
            return [elt()]
        g = gens[i]
        it = self.eval(g.iter)
        seq = self.known(it)
        fr = self.frames[-1]
        if seq is not None and len(seq) <= 64:
            out = []
            sv = self.mask
            for x in seq:
                self.assign(g.target, x)
                keep = True
                for c in g.ifs:
                    t = self.truth(self.eval(c))
                    if t.const is None:
                        self.unsupported('comprehension filter', c)
                    elif not t.const:
                        keep = False
                if not keep:
                    continue
                r = self.comp_rec(gens, i + 1, elt)
                if isinstance(r, tuple):
                    out.append(r[1])
                else:
                    out.extend(r)
                self.mask = sv
            return out
        depth = len(self.loops)
        iteratom = Num(H(('ITER', depth)), node=('iter',), rank=0, isint=True)
        bound, elem, full = self.lib.iter_sym(self, it, iteratom)
        lp = LoopCtx(iteratom)
        self.loops.append(lp)
        self.assign(g.target, elem() if callable(elem) else elem)
        filt = [self.truth(self.eval(c)) for c in g.ifs]
        r = self.comp_rec(gens, i + 1, elt)
        self.loops.remove(lp)
        v = r[1] if isinstance(r, tuple) else (r[0] if len(r) == 1 else Tup(r))
        full = full or self.walksall(lp, bound)
        if isinstance(v, Num):
            n = Num(v.fp, const=v.const, lin=v.lin, rad=v.rad, node=v.node, rank=(v.rank or 0) + 1)
        else:
            n = Num(fpof(v), rank=2, node=('rows', (v,)))
        if full and isinstance(bound, Num) and not filt and n.const is None:
            V.CTX.lens.setdefault(V.key(n.fp), bound)
        if not full:
            n = self.lib.partial(self, n, H(('code', 'for'), np.zeros(F.K, np.uint64), fpof(bound)))
        for c in filt:
            n = Num(H('filter', n.fp, c.fp), rank=1)
        return ('gen', n)

    def e_ListComp(self, e):
        r = self.comp(e, lambda: self.eval(e.elt))
        return PyList(Tup(r)) if isinstance(r, list) else PyList(r[1])

    def e_GeneratorExp(self, e):
        r = self.comp(e, lambda: self.eval(e.elt))
        return Tup(r) if isinstance(r, list) else r[1]

    e_SetComp = e_ListComp

    def e_DictComp(self, e):
        r = self.comp(e, lambda: Tup([self.eval(e.key), self.eval(e.value)]))
        d = PyDict()
        if isinstance(r, list):
            for kv in r:
                kk = self.lib.constkey(kv.e[0])
                if kk is not None:
                    d.d[kk[0]] = kv.e[1]
        else:
            d.opaque = r[1]
        return d

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value else NONE
        fr = self.frames[-1]
        if fr.manager is not None:
            fr.manager(v)
            return NONE
        if fr.yields is None:
            fr.yields = []
        fr.yields.append(v)
        return NONE

    # ------------------------------------------------------------ calls
    def eval_defaults(self, a):
        return ([self.eval(d) for d in a.defaults], [self.eval(d) if d is not None else None for d in a.kw_defaults])

    def call(self, f, args, kw, node):
        if isinstance(f, Alt):
            return self.lift(lambda x: self.call(x, args, kw, node), f)
        if isinstance(f, Bound):
            return self.inline(f.func, [f.self_] + list(args), kw, node)
        if isinstance(f, self.lib._Partial):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.f, f.pre + list(args), k2, node)
        if isinstance(f, Native):
            return f.fn(list(args), kw, node)
        if isinstance(f, Func):
            return self.inline(f, args, kw, node)
        if isinstance(f, ClassV):
            return self.construct(f.cls, args, kw, node)
        if isinstance(f, Ext):
            self.lib.check_ext(self, f.path, node)
            r = self.lib.extcall(self, f.path, args, kw, node)
            return r if f.path.endswith(('.asarray', '.asanyarray')) else self.fresh(r, *args)
        if isinstance(f, ExtM):
            r = self.lib.methcall(self, f, args, kw, node)
            return self.fresh(r, f.recv, *args)
        if isinstance(f, Obj):
            c, m = self.find_method(f.cls, '__call__')
            if m is not None:
                return self.inline(Func(m, c.mod, cls=c), [f] + args, kw, node)
        if isinstance(f, Num):
            return self.lib.apply_opaque(self, f, args, kw, node)
        if f is NONE:
            self.raise_lanes(self.mask.copy(), 'TypeError', node, 'None called')
            return Num(H('nonecall'))
        self.unsupported('call of ' + type(f).__name__, node)
        return Num(H('badcall', *[fpof(a) for a in args]), rank=None)

    def construct(self, cls, args, kw, node):
        if cls.name in self.summaries:      # the constructor is judged by its own obligation: an object of that class,
            c, m = self.find_method(cls, '__init__')                               # determined by the arguments
            names = [x.arg for x in m.args.args][1:] if m is not None else []
            given = dict(kw)
            given.update(zip(names, args))
            base = H(('object', cls.name, len(args) - len(names[:len(args)]), tuple(sorted(given))),
                     *[fpof(given[k]) for k in sorted(given)])
            o = Obj(cls, lazy='%s(%x)' % (cls.name, V.key(base)))
            o.birth = self.mask.copy()
            return o
        o = Obj(cls)
        o.birth = self.mask.copy()
        c, m = self.find_method(cls, '__init__')
        if m is not None:
            self.inline(Func(m, c.mod, cls=c), [o] + list(args), kw, node)
        return o

    def statefp(self, obj, reads, depth=0):
        """value numbers of the attributes a summarised call may read"""
        out = []
        for n in sorted(reads):
            if n in obj.attrs:
                v = obj.attrs[n]
            elif obj.lazy is not None and self.private(obj, n, True):
                continue
            elif obj.lazy is not None and (n in self.declared.get(obj.cls.name, ()) if self.declared else False):
                v = self.getattr_(obj, n, None, quiet=True)
            else:
                continue
            if isinstance(v, Obj):
                if depth < 2:
                    out.append(H(('sub', n), *self.statefp(v, reads, depth + 1)) if v.lazy is None or v.attrs else H(('sub', n)))
                continue
            out.append(H(('rd', n), fpof(v)))
        return out

    def summarise(self, func, args, kw, node):
        """a call judged by its own obligations: uninterpreted in its arguments and the state it may read"""
        if getattr(self.project, 'modref', None) is None:
            from . import modref
            self.project.modref = modref.ModRef(self.project)
        reads, writes, impure = self.project.modref.summary(func.node)
        obj = args[0]
        if impure or not isinstance(obj, Obj):
            return None
        names = [x.arg for x in func.node.args.args]
        env = dict(zip(names, args))
        if len(args) > len(names) or any(k not in names or k in env for k in kw):
            return None
        env.update(kw)
        nd = len(func.node.args.defaults)
        for nm, d in zip(names[len(names) - nd:], func.node.args.defaults):
            if nm not in env:
                env[nm] = self.evalconst(d, func.mod)
        if any(n not in env for n in names):
            return None
        afp = [fpof(env[n]) for n in names[1:]]
        base = H(('summary', func.cls.name, func.name), *(afp + self.statefp(obj, reads)))
        self.callees.add((func.mod.name, func.cls.name + '.' + func.name))
        for w in sorted(writes):
            o = obj
            for part in w[:-1]:
                o = self.getattr_(o, part, None, quiet=True)
            if isinstance(o, Obj) and not (o.cls and self.find_method(o.cls, w[-1])[1] is not None):
                if w[-1] in o.attrs and isinstance(o.attrs[w[-1]], Obj):
                    return None
                self.setattr_(o, w[-1], Num(H(('sw', w), base), rank=None))
        node_ = ('atom', func.name, tuple(env[n] for n in names[1:]))
        arity = {len(x.value.elts) if isinstance(x.value, ast.Tuple) else 0 for x in ast.walk(func.node) if isinstance(x, ast.Return)}
        if len(arity) == 1 and max(arity):
            return Tup([Num(H(('ret', i), base), rank=None, node=node_) for i in range(max(arity))])
        if not arity:
            return NONE
        return Num(base, rank=None, node=node_)

    def decorated(self, func, args, kw, node):
        for d in func.node.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            nm = t.id if isinstance(t, ast.Name) else getattr(t, 'attr', '')
            if nm in ('property', 'staticmethod', 'classmethod', 'ob', 'setter', 'wraps', 'abstractmethod', 'njit', 'jit'):
                continue
            if nm in ('lru_cache', 'cache', 'cached_property'):
                ks = [a if isinstance(a, Obj) else fpof(a) for a in list(args) + [kw[k] for k in sorted(kw)]]
                for fn, k0, m0, r0 in self.memo:
                    if fn is func.node and len(k0) == len(ks) and all(
                            (x is y) if isinstance(x, Obj) or isinstance(y, Obj) else (x == y).all() for x, y in zip(k0, ks)) \
                            and not (self.mask & ~m0).any():
                        return r0
                r = self.inline(func, args, kw, node, raw=True)
                self.memo.append((func.node, ks, self.mask.copy(), r))
                self.touched.add(('memo', func.name))
                return r
            if nm == 'contextmanager':
                return Manager(func, list(args), dict(kw))
            if self.projectfunc(t, func) is not None:
                return self.wrapped(func, args, kw, node)
            self.unsupported('decorator ' + nm, node)
        return None

    def projectfunc(self, d, func):
        if isinstance(d, ast.Name):
            if func.cls is not None and d.id in func.cls.methods:
                return Func(func.cls.methods[d.id], func.mod)
            v = self.global_name(func.mod, d.id)
            return v if isinstance(v, (Func, ClassV)) else None
        return None

    def wrapped(self, func, args, kw, node):
        """decorators of the project itself: applied, innermost first"""
        f = Func(func.node, func.mod, func.env, func.cls)
        f.attrs, f.defaults, f.bare = func.attrs, func.defaults, True
        for d in reversed(func.node.decorator_list):
            t = d.func if isinstance(d, ast.Call) else d
            nm = t.id if isinstance(t, ast.Name) else getattr(t, 'attr', '')
            if nm in ('property', 'staticmethod', 'classmethod', 'ob', 'setter', 'wraps', 'abstractmethod'):
                continue
            g = self.projectfunc(t, func)
            if g is None:
                self.unsupported('decorator ' + nm, node)
                continue
            if isinstance(d, ast.Call):
                g = self.call(g, [self.evalconst(a, func.mod) for a in d.args], {k.arg: self.evalconst(k.value, func.mod) for k in d.keywords}, node)
            f = self.call(g, [f], {}, node)
        return self.call(f, args, kw, node)

    def inline(self, func, args, kw, node, raw=False, manager=None):
        depth = len(self.frames)
        if func.cls is not None and depth > 1 and func.name in self.summaries and args:
            r = self.summarise(func, args, kw, node)
            if r is not None:
                return r
        if getattr(func.node, 'decorator_list', None) and not raw and not getattr(func, 'bare', False):
            r = self.decorated(func, args, kw, node)
            if r is not None:
                return r
        if depth > MAXDEPTH or sum(1 for f in self.frames if f.func is not None and f.func.node is func.node) > 2:
            self.unsupported('recursion ' + func.name, node)
            return Num(H(('rec', func.name), *[fpof(a) for a in args]), rank=None)
        mask0 = self.mask & ~self.dead
        a = func.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        self.callees.add((func.mod.name, (func.cls.name + '.' if func.cls else '') + func.name))
        fr = Frame(func, mask0, env, func.mod)
        fr.manager = manager
        if len(args) > len(names) and a.vararg is None:
            self.raise_lanes(self.mask.copy(), 'TypeError', node, '%s() takes %d arguments, %d given' % (func.name, len(names), len(args)))
            args = args[:len(names)]
        for nm, v in zip(names, args):
            env[nm] = v
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(args[len(names):])
        rest = {}
        allowed = set(names) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in allowed:
                if k in env:
                    self.raise_lanes(self.mask.copy(), 'TypeError', node, 'multiple values for ' + k)
                env[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                self.raise_lanes(self.mask.copy(), 'TypeError', node, '%s() got an unexpected keyword %s' % (func.name, k))
        if a.kwarg is not None:
            env[a.kwarg.arg] = PyDict(rest)
        # defaults
        if func.defaults is not None:
            dpos, dkw = func.defaults
        else:
            sv = self.frames
            self.frames = self.frames + [Frame(None, mask0, {}, func.mod)]
            if id(func.node) in self.defstore:
                dpos, dkw = self.defstore[id(func.node)]
            else:
                dpos, dkw = self.eval_defaults(a)
                if any(isinstance(x, (PyList, PyDict)) for x in dpos + dkw):
                    self.defstore[id(func.node)] = (dpos, dkw)
                    for x in dpos + dkw:
                        if isinstance(x, (PyList, PyDict)):
                            self.gorig.append((('default', func.name), x, fpof(x)))
            self.frames = sv
        for nm, v in zip(names[len(names) - len(dpos):], dpos):
            env.setdefault(nm, v)
        for x, v in zip(a.kwonlyargs, dkw):
            if v is not None:
                env.setdefault(x.arg, v)
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm not in env:
                self.raise_lanes(self.mask.copy(), 'TypeError', node, '%s() missing argument %s' % (func.name, nm))
                env[nm] = Num(H(('missingarg', nm)))
        cur, sm = self.cur, self.mask
        self.frames.append(fr)
        try:
            if isinstance(func.node, ast.Lambda):
                self.mask = mask0
                ret = self.eval(func.node.body)
            else:
                m = self.exec_block(func.node.body, mask0)
                if fr.yields is not None:
                    ret = PyList(Tup(fr.yields))
                else:
                    ret = fr.ret
                    if ret is UNDEF:
                        ret = NONE
                    elif m.any():
                        ret = select(m, NONE, ret)
        finally:
            self.frames.pop()
            self.cur, self.mask = cur, sm
        self.mask = sm & ~self.dead
        return ret

    # fingerprint of a function value: its result on canonical symbols
    def funcfp(self, f):
        func, skip, given = f, 0, set()
        while isinstance(func, (Bound, self.lib._Partial)):
            if isinstance(func, Bound):
                func, skip = func.func, skip + 1
            else:
                skip += len(func.pre)
                given |= set(func.kw)
                func = func.f
        if not isinstance(func, Func):
            self.opaque.add('funcfp')
            return H('fnopaque', fpof(func))
        a = func.node.args
        allnames = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        need = (allnames[:len(allnames) - nd] if nd else allnames)[skip:]
        need = [x for x in need if x not in given]
        syms = [Num(H(('farg', i)), node=('in', '<arg%d>' % i), rank=None) for i in range(len(need))]
        j = []
        self.journals.append(j)
        snap = self.snapshot()
        sv = (self.mask, self.cur)
        try:
            r = self.call(f, syms, {}, None)
            fp = H('fn', fpof(r))
        finally:
            self.journals.remove(j)
            self.rollback(j)
            self.restore(snap)
            self.mask, self.cur = sv
        return fp


def _as_store(t):
    return t


def flaglike(v):
    """a value that is nothing but true/false (0/1)"""
    if isinstance(v, BoolV):
        return True
    if isinstance(v, Alt):
        return all(flaglike(x) for _, x in v.alts)
    if isinstance(v, Num):
        if v.const in (0, 1):
            return True
        if v.node is not None and v.node[0] == 'sel':
            return all(flaglike(x) for x in v.node[2])
    return False


def lanes01(v):
    if isinstance(v, BoolV):
        return np.where(v.t, F.ONE, F.ZERO)
    if isinstance(v, Alt):
        o = F.ZERO
        for m, x in v.alts:
            o = np.where(m, lanes01(x), o)
        return o
    return fpof(v)


def _atlane(v, l):
    """the constant a value takes on lane l"""
    if isinstance(v, Alt):
        for m, x in v.alts:
            if m[l]:
                return _atlane(x, l)
        return None
    if isinstance(v, BoolV):
        return as_bool_const(bool(v.t[l]))
    if v is NONE:
        return v
    if isinstance(v, Num):
        if v.const is not None:
            return v
        r = V._ratrec(int(v.fp[l]))
        return C(r) if r is not None else None
    return None
