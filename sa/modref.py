"""Mod/ref summaries of methods: which attributes a call may read or write (transitively, by name)."""
import ast


def _attr_path(n):
    """self.a.b -> ['a','b'] when rooted at the first parameter, else None"""
    p = []
    while isinstance(n, ast.Attribute):
        p.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name) and n.id == 'self':
        return p[::-1]
    return None


class ModRef:
    def __init__(self, project):
        self.by_name = {}
        for m in project.mods.values():
            if m.name.startswith('spec.'):
                continue
            for c in m.classes.values():
                for k, f in c.methods.items():
                    self.by_name.setdefault(k, []).append(f)
            for k, f in m.funcs.items():
                self.by_name.setdefault(k, []).append(f)
        self.local = {}
        self.memo = {}

    def facts(self, f):
        if id(f) in self.local:
            return self.local[id(f)]
        reads, writes, calls = set(), set(), set()
        impure = False
        loc = {a.arg for a in f.args.args}
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute):
                if isinstance(n.ctx, ast.Load):
                    (calls if n.attr in self.by_name else reads).add(n.attr)
                else:
                    p = _attr_path(n)
                    if p is not None:
                        writes.add(tuple(p))
                    elif isinstance(n.value, ast.Attribute) or isinstance(n.value, ast.Name) and n.value.id in loc:
                        pass
                if n.attr in ('savetxt', 'save', 'random', 'choice', 'randint'):
                    impure = True
            elif isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
                b = n.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                p = _attr_path(b) if isinstance(b, ast.Attribute) else None
                if p is not None:
                    writes.add(tuple(p))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.by_name:
                calls.add(n.id)
            elif isinstance(n, ast.Call):
                f2 = n.func
                if isinstance(f2, ast.Attribute) and f2.attr in ('append', 'extend', 'update', 'pop', 'sort', 'insert', 'fill'):
                    p = _attr_path(f2.value) if isinstance(f2.value, ast.Attribute) else None
                    if p is not None:
                        writes.add(tuple(p))
                if isinstance(f2, ast.Name) and f2.id == 'setattr' and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                    p = _attr_path(ast.Attribute(n.args[0], n.args[1].value, ast.Store()))
                    if p is not None:
                        writes.add(tuple(p))
                    else:
                        impure = True
                elif isinstance(f2, ast.Name) and f2.id in ('setattr', 'open', 'exec', 'eval'):
                    impure = True
        self.local[id(f)] = (reads, writes, calls, impure)
        return self.local[id(f)]

    def summary(self, node):
        """(attribute names read, attribute paths written through self, impure)"""
        if id(node) in self.memo:
            return self.memo[id(node)]
        seen, todo = set(), [node]
        reads, writes, impure = set(), set(), False
        while todo:
            f = todo.pop()
            if id(f) in seen:
                continue
            seen.add(id(f))
            r, w, c, i = self.facts(f)
            reads |= r
            writes |= w
            impure |= i
            for k in c:
                todo += self.by_name[k]
        self.memo[id(node)] = (frozenset(reads), frozenset(writes), impure)
        return self.memo[id(node)]
