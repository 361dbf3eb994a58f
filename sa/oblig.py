"""Obligations: a project function against its reference model.

Both the project function and the reference are *read* (syntax trees) by the
same value-numbering analysis on the same symbolic receiver and arguments.
An obligation is discharged when, on every lane (path condition x random
valuation) where the reference defines a result, the returned value, every
attribute of every reachable receiver/argument object, and the files written
carry the same value numbers.
"""
import ast
import os
import time
import numpy as np
from . import field as F
from . import values as V
from .values import *
from .config import IGNORE, SETTABLE
from .core import Interp, Frame, AnalysisError

MAXPASS = 4


class Outcome:
    def __init__(self, name):
        self.name = name
        self.status = 'ok'          # ok | violation | undecided | missing
        self.msgs = []
        self.stats = {}
        self.loc = None
        self.seconds = 0.0


def spec_functions(mod):
    """(class name or None, function node, options) for each obligation of a reference module"""
    out = []
    for cname, ci in mod.classes.items():
        for fn, node in ci.methods.items():
            if fn.startswith('_') and fn != '__init__':
                continue
            out.append((cname, fn, node, options(node)))
    return out


def variants(node, o):
    out = ['full']
    if node.args.defaults and not o.get('omit'):
        out.append('defaults')
    return out + ['omit%d' % i for i in range(len(o.get('omit', ())))]


def options(node):
    o = {}
    for d in node.decorator_list:
        if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'ob':
            for k in d.keywords:
                o[k.arg] = ast.literal_eval(k.value)
    return o


class Session:
    def __init__(self, project, types, arrays, params, universe, ctypes=None):
        self.project, self.types, self.arrays, self.params = project, types, arrays, params
        self.universe = universe
        self.summaries = ()

    def find_class(self, cname):
        for m in self.project.mods.values():
            if cname in m.classes and not m.name.startswith('spec.'):
                return m.classes[cname]
        return None

    # ------------------------------------------------------------ one run
    def interp(self, agree=False):
        return Interp(self.project, types=self.types, arrays=self.arrays, params=dict(self.params), agree=agree, universe=self.universe)

    def run(self, cls, specmod, node, opts, side, variant, implname, agree, I=None, self_=None, tick=''):
        """one side on symbolic arguments; `self_` and `I` given: on that state (second call of a history)"""
        if I is None:
            I = self.interp(agree)
        ctor = implname == '__init__'
        tk = tick if callable(tick) else lambda n: tick
        names = [a.arg for a in node.args.args]
        nd = len(node.args.defaults)
        if variant == 'defaults':
            names = names[:len(names) - nd]
        ranks = opts.get('ranks', {})
        typ = opts.get('types', {})
        callables = opts.get('callables', {})
        static = opts.get('static', False)
        args, objs = [], []
        ns = names if static else names[1:]
        omitted = opts['omit'][int(variant[4:])] if variant.startswith('omit') else ()
        kw, bykw = {}, False
        for n in ns:
            if n in omitted:
                bykw = True         # everything after an omitted argument is passed by keyword
                continue
            if bykw:
                assert n not in typ and n not in ranks
                kw[n] = I.insym(n + tk(n), 0)
                continue
            if n in typ:
                o = I.lazyobj(typ[n], n + tk(n))
                objs.append((n, o))
                args.append(o)
            elif isinstance(ranks.get(n), int) or ranks.get(n) is None and n in ranks:
                args.append(I.insym(n + tk(n), ranks[n]))
                if n in opts.get('whole', ()):      # may be given in whole numbers: arrays "like" it cannot hold fractions
                    args[-1].idt = 'i'
            elif n in ranks:            # 'vecN' -> known-length vector, 'matNxM', 'list'
                r = ranks[n]
                if r.startswith('vec'):
                    args.append(Arr([I.insym('%s%s[%d]' % (n, tk(n), i), 0) for i in range(int(r[3:]))]))
                elif r.startswith('list'):
                    args.append(PyList(Tup([I.insym('%s%s[%d]' % (n, tk(n), i), 0) for i in range(int(r[4:]))])))
                elif r == 'str':
                    args.append(I.insym(n + tk(n), 0))
                elif r == 'bool':
                    fp = F.H(('flag', n + tk(n)))
                    args.append(BoolV(fp % np.uint64(2) == 0, fp))
                else:
                    raise AnalysisError('bad rank ' + r)
            else:
                args.append(I.insym(n + tk(n), 0))
        I.summaries = frozenset(self.summaries)
        I.console = bool(opts.get('console'))
        fr = Frame(None, I.full, {}, specmod)
        I.frames.append(fr)
        passed = [n for n in ns if n not in omitted]
        for n, a in list(zip(passed, args)) + sorted(kw.items()):
            if not isinstance(a, Obj):
                fr.env['\0arg ' + n] = a
        if static:
            self_ = None
        elif ctor:
            self_ = Obj(cls)
        elif self_ is None:
            self_ = I.lazyobj(cls.name, 'self')
            for a, k in opts.get('attrs', {}).items():      # attributes with known shapes
                if k.startswith('vec'):
                    v = Arr([I.insym('self.%s[%d]' % (a, i), 0) for i in range(int(k[3:]))])
                    self_.attrs[a] = v
                    self_.sym[a] = v
        if side == 'spec':
            f = Func(node, specmod)
            r = I.inline(f, ([] if static else [self_]) + args, dict(kw), None)
        else:
            c, m = I.find_method(cls, implname)
            if m is None:
                raise AnalysisError('missing %s.%s' % (cls.name, implname))
            f = Func(m, c.mod, cls=c)
            if implname in c.statics:
                r = I.inline(f, args, kw, None)
            elif implname in c.props:
                r = I.inline(f, [self_], {}, None)
            else:
                r = I.inline(f, [self_] + args, kw, None)
        if self_ is not None:
            objs.insert(0, ('self', self_))
        return I, r, objs

    # ------------------------------------------------------------ comparison
    def cmp(self, where, a, b, live, diffs, depth=0):
        """a from the project, b from the reference"""
        if depth > 12:
            return
        if isinstance(a, Alt) or isinstance(b, Alt):
            for ma, x in (a.alts if isinstance(a, Alt) else [(np.ones(F.K, bool), a)]):
                for mb, y in (b.alts if isinstance(b, Alt) else [(np.ones(F.K, bool), b)]):
                    m = ma & mb & live
                    if m[V.SPECIAL:].any():
                        self.cmp(where, x, y, m, diffs, depth + 1)
            return
        if isinstance(a, Obj) and isinstance(b, Obj):
            if (a.cls.name if a.cls else None) != (b.cls.name if b.cls else None):
                diffs.append((where, live, 'object of class %s expected %s' % (a.cls.name, b.cls.name), a, b))
                return
            self.cmpobj(where, a, b, live, diffs, depth + 1)
            return
        sa, sb = _seq(a), _seq(b)
        if sa is not None and sb is not None and len(sa) == len(sb):
            for i, (x, y) in enumerate(zip(sa, sb)):
                self.cmp('%s[%d]' % (where, i), x, y, live, diffs, depth + 1)
            return
        if isinstance(a, PyDict) and isinstance(b, PyDict) and set(a.d) == set(b.d) and a.opaque is None and b.opaque is None:
            for k in a.d:
                self.cmp('%s[%r]' % (where, k), a.d[k], b.d[k], live, diffs, depth + 1)
            return
        bad = live & ~same(a, b)
        bad[:V.SPECIAL] = False
        if bad.any():
            diffs.append((where, bad, None, a, b))

    def initial(self, I, o, n):
        if o.lazy is None:
            return UNDEF
        return I.insym(o.lazy + '.' + n + ("'" if n in I.moved else ''), 1 if n in self.arrays else 0)

    def cmpobj(self, where, a, b, live, diffs, depth=0):
        seen = self.seen
        if (id(a), id(b)) in seen:
            return
        seen.add((id(a), id(b)))
        names = set(a.attrs) | set(b.attrs)
        uni = self.universe.get(a.cls.name if a.cls else '', ())
        for n in sorted(names):
            if n in self.ignored or n.startswith('\0'):
                continue
            inspec = n in b.attrs
            if not inspec and (n not in uni or b.lazy is None):
                continue            # new private state of the implementation: judged by the history obligations
            x = a.attrs.get(n)
            y = b.attrs.get(n)
            if x is None:
                if isinstance(y, Obj) and y.lazy == (a.lazy or '') + '.' + n + ("'" if n in self.I.moved else ''):
                    x = Obj(y.cls, lazy=y.lazy)
                elif b.sym.get(n) is y:
                    continue        # only read by the reference
                else:
                    x = self.initial(self.I, a, n)
            if y is None:
                if isinstance(x, Obj) and x.lazy == (b.lazy or '') + '.' + n + ("'" if n in self.I.moved else ''):
                    y = Obj(x.cls, lazy=x.lazy)
                elif a.sym.get(n) is x:
                    continue        # only read
                elif isinstance(x, Func):
                    continue
                else:
                    y = self.initial(self.I, b, n)
            self.cmp('%s.%s' % (where, n), x, y, live, diffs, depth + 1)

    def effects(self, EI, ES, live, diffs):
        """files written: same (name, data) sequence on every lane"""
        from .plots import effective

        def printed(effs):
            es = [e for e in effs if e[0] == 'print']
            if es and all((e[-1] | ~live).all() for e in es):       # one text, however it is split into calls
                t = Str([p for e in es for p in e[4].parts])
                return [('print', es[0][1], t.fp, es[0][3], t, es[0][5], es[0][-1])]
            return es

        def prepared(effs):
            return [e[:-1] + (m,) for e, m in effective([e for e in effs if e[0] != 'print'])] + printed(effs)

        def fp(effs):
            out = np.zeros(F.K, np.uint64)
            for i, e in enumerate(effs):
                nth = np.zeros(F.K, np.uint64)      # how many earlier writes go to the same file
                for f in effs[:i]:
                    nth = nth + (f[-1] & (f[1] == e[1])).astype(np.uint64)
                out = np.where(e[-1], out + H('eff', e[1], e[2], nth), out)
            return out
        EI, ES = prepared(EI), prepared(ES)
        a, b = fp(EI), fp(ES)
        bad = live & (a != b)
        bad[:V.SPECIAL] = False
        if bad.any():
            # find the first differing file
            names_s = {}
            for e in ES:
                names_s.setdefault(V.show(e[3]), []).append(e)
            loc = None
            for e in EI:
                if not any(((e[1] == s[1]) & (e[2] == s[2]) | ~live | ~e[-1])[V.SPECIAL:].all() for s in ES):
                    loc = e
                    break
            txt = 'files written differ from the reference'
            if loc is not None:
                txt += ' (first unexpected: %s at %s:%s)' % (V.show(loc[3]), os.path.basename(loc[5][0]), loc[5][1])
            elif len(EI) != len(ES):
                txt += ' (%d writes, expected %d)' % (len(EI), len(ES))
            diffs.append(('files', bad, txt, None, None))

    # ------------------------------------------------------------ decision
    def decide(self, specmod, cname, fname, node, opts, variant='full'):
        """callees listed in `calls` are judged by their own obligations: first treat them as uninterpreted, and look
        inside them only when the two sides do not agree on that level"""
        calls = opts.get('calls', ())
        if calls:
            self.summaries = calls
            try:
                out = self.decide1(specmod, cname, fname, node, opts, variant)
            finally:
                self.summaries = ()
            if out.status == 'ok' or out.status == 'missing':
                return out
            if opts.get('modular_only'):
                return out
        return self.decide1(specmod, cname, fname, node, opts, variant)

    def pair(self, once):
        """both sides, repeated until the comparison thresholds they meet are the same in every pass"""
        reset_ctx()
        for p in range(MAXPASS):
            V.CTX.epoch = p
            V.CTX.pgroups, V.CTX.pcache = None, {}
            r = once()
            n0 = (sum(len(v) for v in V.CTX.frozen_thr.values()), sum(len(v) for v in V.CTX.frozen_str.values()))
            V.CTX.freeze()
            n1 = (sum(len(v) for v in V.CTX.frozen_thr.values()), sum(len(v) for v in V.CTX.frozen_str.values()))
            if p > 0 and n0 == n1:
                break
        self.passes = p + 1
        return r

    def decide1(self, specmod, cname, fname, node, opts, variant='full'):
        out = Outcome('%s.%s' % (cname, fname) + ('' if variant == 'full' else ':' + variant))
        t0 = time.time()
        impl_cls = self.find_class(opts.get('cls', cname))
        implname = opts.get('impl', fname)
        if impl_cls is None:
            out.status = 'missing'
            out.msgs.append('class %s not found' % cname)
            return out
        agree = opts.get('agree', False)

        def once():
            Is, rs, os_ = self.run(impl_cls, specmod, node, opts, 'spec', variant, implname, agree)
            Ii, ri, oi = self.run(impl_cls, specmod, node, opts, 'impl', variant, implname, agree)
            return Is, rs, os_, Ii, ri, oi
        try:
            sides = self.pair(once)
        except AnalysisError as e:
            out.status = 'missing'
            out.msgs.append(str(e))
            return out
        self.judge(out, sides, impl_cls, implname, opts, '')
        cells = sides[3].privatecells()
        if cells and out.status in ('ok', 'vacuous'):
            self.histories(out, cells, impl_cls, specmod, node, opts, variant, implname, agree)
        out.seconds = time.time() - t0
        return out

    # ------------------------------------------------------------ histories
    def histories(self, out, cells, cls, specmod, node, opts, variant, implname, agree):
        """the function keeps or uses state of its own: its result must also be right after an earlier call (of anything
        that touches that state), with the documented state changed in between"""
        attrs = {c[1] for c in cells if len(c) == 2 and c[0] not in ('memo', 'default')}
        moved = self.movable(attrs)
        seqs = []
        if implname != '__init__' or len(attrs) < len(cells):
            seqs += [(cls, implname, None, same) for same in (True, False)]
            given = [a.arg for a in node.args.args[0 if opts.get('static', False) else 1:]]
            if len(given) <= 8:
                seqs += [(cls, implname, None, n) for n in given]       # all arguments but this one as before
            if any(len(c) == 3 or c[0] in ('memo', 'default') for c in cells):
                seqs.append((cls, implname, 'other', True))
        for c, m in self.writers(attrs, {c[2] for c in cells if len(c) == 3}):
            if (c, m) != (cls.name, implname):
                path = self.reach(cls.name, c)
                if path is not None:
                    seqs.append((self.find_class(c), m, path, False))
        done = 0
        if out.status == 'vacuous':
            out.msgs = []
        for (ac, am, path, same) in seqs:
            tag = 'after an earlier %s.%s%s: ' % (ac.name, am, ' with the same arguments' if same is True else ' with another ' + same if same else '') + ('on another object: ' if path == 'other' else '')

            def once():
                return self.after(ac, am, path, same, moved, cls, specmod, node, opts, variant, implname, agree)
            try:
                sides = self.pair(once)
            except AnalysisError as e:
                continue
            if sides is None:
                continue
            o2 = Outcome(out.name)
            self.judge(o2, sides, cls, implname, opts, tag)
            if o2.status == 'vacuous':
                continue
            done += 1
            out.stats.setdefault('histories', []).append('%s.%s; %s' % (ac.name, am, implname))
            if o2.status != 'ok':
                out.status, out.msgs, out.loc = o2.status, o2.msgs, o2.loc
                if o2.status == 'violation':
                    return
        if done and out.status == 'vacuous':
            out.status = 'ok'
        elif not done and out.status == 'vacuous':
            out.status = 'undecided'
            out.msgs.append('depends on private state no analysed history sets: %s' % sorted(map(str, cells)))

    def after(self, ac, am, path, same, moved, cls, specmod, node, opts, variant, implname, agree):
        I = self.interp(agree)
        fr = Frame(None, I.full, {}, specmod)
        self_ = None
        other, path = path == 'other', None if path == 'other' else path
        V.CTX.nears = []
        if path is None:                       # the same function before
            first = I.lazyobj(cls.name, 'other') if other and implname != '__init__' else None
            _, _, objs = self.run(cls, specmod, node, opts, 'impl', variant, implname, agree, I=I, self_=first)
            if objs and objs[0][0] == 'self':
                self_ = objs[0][1]
            if implname == '__init__' or other:
                self_ = None
        else:
            I.frames.append(fr)
            self_ = I.lazyobj(cls.name, 'self')
            if am == '__init__' and not path:
                I.frames.pop()
                self_ = self.constructed(I, cls, specmod, 'self')
                if self_ is None:
                    return None
            else:
                if am == '__init__' and path:
                    sub = self.constructed(I, ac, specmod, '.'.join(['self'] + path))
                    if sub is None:
                        return None
                    o = self_
                    for p in path[:-1]:
                        o = I.getattr_(o, p)
                    o.attrs[path[-1]] = sub
                else:
                    o = self_
                    for p in path:
                        o = I.getattr_(o, p)
                    self.perform(I, o, ac, am)
        died = I.dead.copy()
        # between the calls
        reached = []

        def walk(o, name):
            if any(o is x for x in reached):
                return
            reached.append(o)
            for n in list(o.attrs):
                x = o.attrs[n]
                if n in moved and not I.private(o, n):
                    del o.attrs[n]
                elif isinstance(x, Obj):
                    walk(x, n)
            o.sym = {n: x for n, x in o.sym.items() if n not in moved and n in o.attrs}
        I.frames = [fr]
        if self_ is not None:
            walk(self_, '')

        def clear(J):
            J.frames = []
            J.mask, J.dead, J.dc = J.full, np.zeros(F.K, bool), np.zeros(F.K, bool)
            J.deadfp = H('alive')
            J.effects, J.issues, J.trace, J.randn = [], [], [], {}
            J.excluded, J.explicit, J.unset = (np.zeros(F.K, bool) for _ in range(3))
            J.ignored, J.summaries, J.trydead, J.moved = set(), frozenset(), None, frozenset(moved)
            J.loops, J.journals = [], []
        clear(I)
        start = None
        if self_ is not None:
            from . import lib
            start = lib.deepcopy(I, self_, {})
            self.strip(I, start, set())
            frames = I.frames
        tick = '' if same is True else (lambda n: "'" if n == same else '') if same else "'"
        Is = self.interp(agree)
        clear(Is)
        V.CTX.nears = []
        if isinstance(same, str) and opts.get('types', {}).get(same) is None and opts.get('ranks', {}).get(same) in (None, 0):
            I.frames = [fr]
            V.set_near([(I.insym(same + "'", 0), I.insym(same, 0))])
            I.frames = []
        _, rs, os_ = self.run(cls, specmod, node, opts, 'spec', variant, implname, agree, I=Is, self_=start, tick=tick)
        from . import core
        V.LIVE[0] = lambda: I.mask & ~I.dead
        core.INTERP = I
        _, ri, oi = self.run(cls, specmod, node, opts, 'impl', variant, implname, agree, I=I, self_=self_, tick=tick)
        Is.excluded = Is.excluded | died
        return Is, rs, os_, I, ri, oi

    def strip(self, I, o, seen):
        if id(o) in seen:
            return
        seen.add(id(o))
        sv = I.frames
        I.frames = [Frame(None, I.full, {}, next(m for m in self.project.mods.values() if not m.name.startswith('spec.')))]
        for n in list(o.attrs):
            if o.lazy is not None and I.private(o, n):
                del o.attrs[n]
            elif isinstance(o.attrs[n], Obj):
                self.strip(I, o.attrs[n], seen)
        I.frames = sv
        if hasattr(o, 'birth'):
            del o.birth

    def specopts(self, cname, fname):
        for m in self.project.mods.values():
            if m.name.startswith('spec.') and cname in m.classes:
                for fn, nd in m.classes[cname].methods.items():
                    o = options(nd)
                    if o.get('impl', fn) == fname:
                        return nd, o
        return None, {}

    def symargs(self, I, ac, m, o, tick):
        args = []
        for a in m.args.args[1:][:len(m.args.args) - 1 - len(m.args.defaults)]:
            n = a.arg
            r = o.get('ranks', {}).get(n)
            t = o.get('types', {}).get(n) or self.types.get((ac.name, n))
            if t:
                args.append(I.lazyobj(t, n + tick))
            elif isinstance(r, str) and r.startswith('vec'):
                args.append(Arr([I.insym('%s%s[%d]' % (n, tick, i), 0) for i in range(int(r[3:]))]))
            else:
                args.append(I.insym(n + tick, r if isinstance(r, int) else 0))
        return args

    def perform(self, I, obj, ac, am):
        c, m = I.find_method(ac, am)
        if m is None:
            raise AnalysisError('missing ' + am)
        nd, o = self.specopts(ac.name, am)
        f = Func(m, c.mod, cls=c)
        args = self.symargs(I, ac, m, o, '~')
        if am in c.props:
            I.inline(f, [obj], {}, None)
        elif am in c.statics:
            I.inline(f, args, {}, None)
        else:
            I.inline(f, [obj] + args, {}, None)

    def constructed(self, I, ac, specmod, path):
        c, m = I.find_method(ac, '__init__')
        if m is None:
            return None
        nd, o = self.specopts(ac.name, '__init__')
        ob = Obj(ac)
        fr = Frame(None, I.full, {}, specmod)
        I.frames.append(fr)
        I.inline(Func(m, c.mod, cls=c), [ob] + self.symargs(I, ac, m, o, '~'), {}, None)
        I.frames.pop()
        ob.lazy = path
        return ob

    def stores(self):
        """(class, function, attribute names stored or changed in place, module/class variables named), per function"""
        if getattr(self, '_stores', None) is None:
            out = []
            for m in self.project.mods.values():
                if m.name.startswith('spec.'):
                    continue
                for c in m.classes.values():
                    for fn, nd in c.methods.items():
                        at, names = set(), set()
                        for n in ast.walk(nd):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                                at.add(n.attr)
                            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                                b = n.value
                                while isinstance(b, ast.Subscript):
                                    b = b.value
                                if isinstance(b, ast.Attribute):
                                    at.add(b.attr)
                            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and \
                                    n.func.attr in ('append', 'extend', 'update', 'pop', 'clear', 'insert', 'setdefault', 'sort', 'fill'):
                                at.add(n.func.value.attr)
                            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 \
                                    and isinstance(n.args[1], ast.Constant):
                                at.add(n.args[1].value)
                            if isinstance(n, ast.Name):
                                names.add(n.id)
                            elif isinstance(n, ast.Attribute):
                                names.add('.' + n.attr)
                        out.append((c.name, fn, at, names))
            self._stores = out
        return self._stores

    def movable(self, attrs):
        """documented attributes that may change between two calls without the private ones being brought up to date"""
        out = set(SETTABLE)
        for c, fn, at, _ in self.stores():
            if fn != '__init__' and not attrs <= at or fn != '__init__' and not attrs:
                out |= at
        return out - attrs - {n for _, n in self.types}

    def writers(self, attrs, names):
        out = []
        for c, fn, at, nm in self.stores():
            if at & attrs or names & nm or {'.' + n for n in names} & nm:
                out.append((c, fn))
        return out

    def reach(self, a, b):
        """attribute path from an object of class a to one of class b"""
        if a == b:
            return []
        for (c, n), t in self.types.items():
            if c == a and t == b:
                return [n]
        for (c, n), t in self.types.items():
            if c == a:
                for (c2, n2), t2 in self.types.items():
                    if c2 == t and t2 == b:
                        return [n, n2]
        return None

    def judge(self, out, sides, impl_cls, implname, opts, tag):
        Is, rs, os_, Ii, ri, oi = sides
        self.I = Ii
        self.seen = set()
        self.ignored = Is.ignored | IGNORE
        diffs = []
        live = ~Is.excluded & ~(Ii.unset & Ii.dead)
        live[:V.SPECIAL] = False
        # raising behaviour
        must_raise = live & Is.explicit & Is.dead
        bad = must_raise & ~Ii.dead
        if bad.any():
            diffs.append(('raises', bad, 'must reject this input with an exception but accepts it', None, None))
        bad = live & ~Is.dead & Ii.dead
        if bad.any():
            iss = [i for i in Ii.issues if i[0].startswith('raises:')]
            txt = 'raises where a result is specified'
            if iss:
                txt += ': %s %s at %s:%d in %s' % (iss[0][0][7:], iss[0][1], os.path.basename(iss[0][2]), iss[0][3], iss[0][4])
            diffs.append(('raises', bad, txt, None, None))
        lv = live & ~Is.dead & ~Ii.dead
        if not lv.any() and not diffs and not must_raise.any():
            out.status = 'vacuous'
            out.msgs.append('reference defines no lane')
        if implname != '__init__':
            self.cmp('return', ri, rs, lv, diffs)
        for k, a in Ii.frames[0].env.items():       # arrays passed in, as the caller finds them afterwards
            if k.startswith('\0arg ') and k in Is.frames[0].env:
                self.cmp('argument ' + k[5:], a, Is.frames[0].env[k], lv, diffs)
        self.only = set(opts.get('only', ()))
        for (n, a), (_, b) in zip(oi, os_):
            self.cmpobj(n, a, b, lv, diffs)
        if self.only:
            diffs = [d for d in diffs if d[0] == 'raises' or any(x == y or x.startswith((y + '[', y + '.'))
                                                                 for y in self.only for x in (d[0][5:] if d[0].startswith('self.') else d[0],))]
        else:
            self.effects(Ii.effects, Is.effects, lv, diffs)
        out.stats = dict(lanes=int(live.sum()), compared=int(lv.sum()), statements=Ii.statements,
                         functions=sorted('%s.%s' % c for c in Ii.callees if not c[0].startswith('spec.')),
                         thresholds=sum(len(v) for v in V.CTX.frozen_thr.values()), passes=self.passes,
                         reached=len(Ii.reached), opaque=sorted(Ii.opaque - Is.opaque))
        if diffs:
            newop = Ii.opaque - Is.opaque
            uns = [i for i in Ii.issues if i[0] == 'unsupported']
            out.diffs = diffs
            c, m = Interp.find_method(Ii, impl_cls, implname)
            loc = (c.mod.path, m.lineno)
            first = self.localise(Ii, Is, lv)
            for where, bad, txt, a, b in diffs[:6]:
                s = '%s differs from the reference' % where if txt is None else '%s: %s' % (where, txt)
                if a is not None and b is not None:
                    s += ' (computed %s, specified %s)' % (V.show(a)[:160], V.show(b)[:160])
                s += ' [%d/%d lanes]' % (int(bad.sum()), int(live.sum()))
                out.msgs.append(tag + s)
            out.loc = dict(file=loc[0], line=loc[1], function='%s.%s' % (impl_cls.name, implname))
            if first:
                out.loc['first_divergence'] = '%s:%d %s' % first
            if newop or uns:
                out.status = 'undecided'
                out.msgs.append('not modelled: %s' % ', '.join(sorted(newop | {i[1] for i in uns})))
            else:
                out.status = 'violation'

    def localise(self, Ii, Is, lv):
        idx = np.where(lv)[0]
        if not len(idx):
            return None
        l = idx[:4]
        have = {tuple(fpof(v)[l]) for (_, _, _, v) in Is.trace}
        for (path, ln, nm, v) in Ii.trace:
            if 'spec' in path.split(os.sep):
                continue
            if isinstance(v, Num) and v.const is not None:
                continue
            try:
                if tuple(fpof(v)[l]) not in have:
                    return (os.path.relpath(path, '/repo') if path.startswith('/repo') else path, ln, nm)
            except Exception:
                return None
        return None


def _seq(v):
    if isinstance(v, (Tup, Arr)):
        return v.e
    if isinstance(v, PyList):
        return _seq(v.c)
    return None
