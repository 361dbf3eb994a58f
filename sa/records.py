"""Record types of the standard library as the plain classes they stand for: namedtuple, typing.NamedTuple, dataclass."""
import ast


def dotted(e):
    if isinstance(e, ast.Call):
        e = e.func
    return e.attr if isinstance(e, ast.Attribute) else getattr(e, 'id', '')


def _names(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value.replace(',', ' ').split()
    if isinstance(e, (ast.List, ast.Tuple)):
        out = []
        for x in e.elts:
            if isinstance(x, (ast.Tuple, ast.List)) and x.elts:
                x = x.elts[0]
            if not (isinstance(x, ast.Constant) and isinstance(x.value, str)):
                return None
            out.append(x.value)
        return out
    return None


def build(name, fields, tuplelike, body, at, post=False):
    """fields: [(name, default expression or None, factory expression or None, is a constructor argument)]"""
    args, pre, st = [], [], []
    for f, d, fac, init in fields:
        if fac is not None:
            args.append('%s=None' % f if init else None)
            st.append('        self.%s = %s' % (f, '(%s)() if %s is None else %s' % (ast.unparse(fac), f, f) if init else '(%s)()' % ast.unparse(fac)))
            continue
        if init:
            args.append(f if d is None else '%s=%s' % (f, ast.unparse(d)))
            st.append('        self.%s = %s' % (f, f))
        elif d is not None:
            st.append('        self.%s = %s' % (f, ast.unparse(d)))
    if post:
        st.append('        self.__post_init__()')
    src = 'class %s:\n    def __init__(%s):\n%s\n' % (name, ', '.join(['self'] + [a for a in args if a]), '\n'.join(st or ['        pass']))
    names = [f[0] for f in fields]
    d = '{%s}' % ', '.join("'%s': self.%s" % (n, n) for n in names)
    if tuplelike:
        src += '    __fields__ = (%s)\n' % ''.join("'%s', " % n for n in names)
        src += '    _fields = __fields__\n'
        src += '    def _asdict(self):\n        return %s\n' % d
        src += '    def _replace(self, **kw):\n        return %s(**{**%s, **kw})\n' % (name, d)
        src += '    @classmethod\n    def _make(cls, it):\n        return cls(*it)\n'
    else:
        src += '    def __asdict__(self):\n        return %s\n' % d
        src += '    def __copy_with__(self, **kw):\n        return %s(**{**%s, **kw})\n' % (name, '{%s}' % ', '.join(
            "'%s': self.%s" % (f[0], f[0]) for f in fields if f[3]))
    c = ast.parse(src).body[0]
    c.body += body
    for n in ast.walk(c):
        if n not in body:
            ast.copy_location(n, at)
    for b in body:
        ast.fix_missing_locations(b)
    return ast.fix_missing_locations(c)


def annotated(c):
    out = []
    for s in c.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            if dotted(s.annotation if not isinstance(s.annotation, ast.Subscript) else s.annotation.value) == 'ClassVar':
                continue
            d, fac, init = s.value, None, True
            if isinstance(d, ast.Call) and dotted(d) == 'field':
                kw = {k.arg: k.value for k in d.keywords}
                d, fac = kw.get('default'), kw.get('default_factory')
                init = not (isinstance(kw.get('init'), ast.Constant) and kw['init'].value is False)
            out.append((s.target.id, d, fac, init))
    return out


def desugar(tree):
    known = {}

    def visit(body):
        for i, s in enumerate(body):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call) and \
                    dotted(s.value) in ('namedtuple', 'NamedTuple') and len(s.value.args) > 1:
                ns = _names(s.value.args[1])
                if ns is None:
                    continue
                dv = next((k.value for k in s.value.keywords if k.arg == 'defaults'), None)
                ds = list(dv.elts) if isinstance(dv, (ast.Tuple, ast.List)) else []
                ds = [None] * (len(ns) - len(ds)) + ds
                body[i] = build(s.targets[0].id, [(n, d, None, True) for n, d in zip(ns, ds)], True, [], s)
            elif isinstance(s, ast.ClassDef):
                rest = [x for x in s.body if not (isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name))]
                meths = {x.name for x in s.body if isinstance(x, ast.FunctionDef)}
                base = next((b for b in s.bases if isinstance(b, ast.Call) and dotted(b) == 'namedtuple'), None)
                if base is not None and len(base.args) > 1 and _names(base.args[1]) is not None and '__init__' not in meths:
                    body[i] = build(s.name, [(n, None, None, True) for n in _names(base.args[1])], True, rest, s)
                elif any(dotted(b) == 'NamedTuple' for b in s.bases):
                    body[i] = build(s.name, annotated(s), True, rest, s)
                elif any(dotted(d) == 'dataclass' for d in s.decorator_list) and '__init__' not in meths:
                    fs = []
                    for b in s.bases:
                        fs += known.get(dotted(b), [])
                    own = annotated(s)
                    fs = [f for f in fs if f[0] not in {o[0] for o in own}] + own
                    known[s.name] = fs
                    n = build(s.name, fs, False, rest, s, '__post_init__' in meths)
                    n.bases = s.bases
                    body[i] = n
            elif isinstance(s, (ast.If, ast.Try)):
                visit(s.body)
                visit(s.orelse)
    visit(tree.body)
    return tree
