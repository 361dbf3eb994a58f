"""One-off: record the attribute names each class of the pinned tree ever assigns (frame condition universe)."""
import ast, json, sys
sys.path.insert(0, '/verif')
from sa import project
P = project.Project(); P.load_package('AMAT', '/repo')
U = {}
def attrs(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            yield n.attr
allattrs = set()
for m in P.mods.values():
    for c in m.classes.values():
        U[c.name] = sorted(set(attrs(c.node)))
# attributes set through other objects (self.planetObj.density_int = ...)
for m in P.mods.values():
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and n.value.attr == 'planetObj':
            U['Planet'] = sorted(set(U['Planet']) | {n.attr})
json.dump(U, open('/verif/spec/universe.json', 'w'), indent=0)
