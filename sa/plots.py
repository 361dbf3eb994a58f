"""What a plotting function shows: a model of matplotlib's figures, panels, data and labels.

Drawing calls become effects (panel, kind, data); style (ticks, grids, colours, limits, sizes) is not looked at.
The current figure and panel are derived from the effects recorded so far, so they follow rollbacks and branches.
"""
import numpy as np
from . import field as F
from . import values as V
from .values import *


IGN = PltV('ign')
DATA = ('plot', 'scatter', 'semilogx', 'semilogy', 'loglog')
OTHERDATA = {'bar', 'barh', 'hist', 'hist2d', 'hexbin', 'step', 'fill_between', 'fill_betweenx', 'errorbar', 'contour', 'contourf', 'imshow', 'matshow',
             'pcolor', 'pcolormesh', 'stem', 'quiver', 'stackplot', 'boxplot', 'violinplot', 'pie', 'polar', 'streamplot', 'plot_date', 'vlines', 'hlines'}
TEXT = {'xlabel': 'xlabel', 'set_xlabel': 'xlabel', 'ylabel': 'ylabel', 'set_ylabel': 'ylabel', 'title': 'title', 'set_title': 'title',
        'xscale': 'xscale', 'set_xscale': 'xscale', 'yscale': 'yscale', 'set_yscale': 'yscale'}
HARD = {'twinx', 'twiny', 'inset_axes', 'add_axes', 'axes', 'subplot2grid', 'subplot_mosaic', 'add_gridspec', 'cla', 'clf', 'clear', 'delaxes', 'sci',
        'add_collection', 'add_line', 'add_artist', 'add_patch', 'set_data', 'set_xdata', 'set_ydata', 'set_array', 'set_offsets', 'invert_yaxis',
        'invert_xaxis', 'get_title', 'get_xlabel', 'get_ylabel', 'set_text', 'get_lines', 'lines', 'get_figure', 'pause', 'savefig_dict'}


def here(I, node):
    fr = I.frames[-1]
    return (fr.mod.path if fr.mod else '?', getattr(node, 'lineno', 0), fr.func.name if fr.func else '?')


def put(I, kind, name, data, show, node):
    """kind: pltdata | plttext | pltcur | pltfile; name: hashable; data: value"""
    nf = name if isinstance(name, np.ndarray) else H(('plt',) + name)
    I.effects.append((kind, nf, fpof(data) if data is not None else F.ZERO, show, name, here(I, node), I.mask.copy()))


def state(I, kind):
    """latest value of the state `kind` on the current lanes"""
    live = I.mask & ~I.dead
    for e in reversed(I.effects):
        if e[0] == 'pltcur' and e[3] == kind and (e[-1] & live).any():
            if (live & ~e[-1]).any():
                I.unsupported('plot state set under a condition', None)
            return e[4]
    return None


def setstate(I, kind, v, node):
    if any(lp.iter is not None for lp in I.loops):
        I.unsupported('plot state set in a loop of unknown length', node)
    I.effects.append(('pltcur', F.ZERO, F.ZERO, kind, v, here(I, node), I.mask.copy()))


def newfig(I, node):
    n = (state(I, 'nfig') or 0) + 1
    setstate(I, 'nfig', n, node)
    setstate(I, 'fig', n, node)
    setstate(I, 'ax', None, node)
    return n


def curfig(I, node):
    n = state(I, 'fig')
    if n is None:
        if state(I, 'nfig') is None:
            return 0                # whatever figure the caller has open
        return newfig(I, node)
    return n


def curax(I, node):
    ax = state(I, 'ax')
    n = curfig(I, node)
    if ax is None or ax[0] != n:
        return (n, (1, 1, 1))
    return ax


def panel(I, args, node):
    cs = []
    for a in args:
        if isinstance(a, (Tup, PyList)):
            k = I.known(a)
            cs.append(tuple(int(x.const) if isinstance(x, Num) and x.const is not None else None for x in k or ()))
        elif isinstance(a, Num) and a.const is not None:
            cs.append(int(a.const))
        else:
            cs.append(None)
    if len(cs) == 1 and isinstance(cs[0], int) and cs[0] > 100:
        cs = [int(c) for c in str(cs[0])]
    if not cs:
        cs = [1, 1, 1]
    if len(cs) != 3 or any(c is None or isinstance(c, tuple) and None in c for c in cs):
        I.unsupported('plot panel not known', node)
        return (1, 1, 1)
    return tuple(cs)


def axes_of(I, n):
    out = []
    for e in I.effects:
        if e[0] == 'pltcur' and e[3] == 'ax' and e[4] is not None and e[4][0] == n and e[4] not in out:
            out.append(e[4])
    return out or [(n, (1, 1, 1))]


def grid(I, n, args, kw, node):
    d = dict(kw)
    for nm, a in zip(('nrows', 'ncols'), args):
        d[nm] = a
    r, c = d.get('nrows', C(1)), d.get('ncols', C(1))
    if not all(isinstance(x, Num) and x.const is not None for x in (r, c)):
        I.unsupported('plot grid not known', node)
        return IGN
    r, c = int(r.const), int(c.const)
    ax = [[PltV('ax', (n, (r, c, i * c + j + 1))) for j in range(c)] for i in range(r)]
    for row in ax:
        for a in row:
            setstate(I, 'ax', a.ident, node)
    sq = kw.get('squeeze')
    if isinstance(sq, BoolV) and sq.const is False:
        return Arr([Arr(x) for x in ax])
    if r == c == 1:
        return ax[0][0]
    if r == 1:
        return Arr(ax[0])
    if c == 1:
        return Arr([x[0] for x in ax])
    return Arr([Arr(x) for x in ax])


def effective(effs):
    """(effect, mask) of what is finally shown: a label set again replaces the earlier one"""
    out = []
    for i, e in enumerate(effs):
        m = e[-1]
        if e[0] == 'pltcur':
            continue
        if e[0] == 'plttext':
            for f in effs[i + 1:]:
                if f[0] == 'plttext' and f[4] == e[4]:
                    m = m & ~f[-1]
        out.append((e, m))
    return out


def content(I, n):
    """everything drawn so far into figure n"""
    acc = np.zeros(F.K, np.uint64)
    es = effective(I.effects)
    for i, (e, m) in enumerate(es):
        if e[0] in ('pltdata', 'plttext') and (e[4][1] == n):
            nth = np.zeros(F.K, np.uint64)
            for f, mf in es[:i]:
                if f[0] == e[0] and f[4] == e[4]:
                    nth = nth + mf.astype(np.uint64)
            acc = np.where(m, acc + H('drawn', e[1], e[2], nth), acc)
    return Num(acc)


def toarr(I, a):
    from . import lib
    if isinstance(a, (PyList, Tup, Arr, Num, Iter, BoolV)):
        return lib.toarray(I, a)
    return a


def draw(I, ax, nm, args, kw, node):
    if nm in DATA:
        args = [a for a in args]
        groups, cur = [], []
        if nm == 'scatter':
            d = dict(kw)
            for k, a in zip(('x', 'y', 's', 'c'), args):
                d[k] = a
            groups = [([d.get('x', NONE), d.get('y', NONE)], d.get('c', d.get('color', NONE)))]
        else:
            for a in args:
                if isinstance(a, Str):
                    if cur:
                        groups.append((cur, NONE))
                    cur = []
                    continue
                if len(cur) == 2:
                    groups.append((cur, NONE))
                    cur = []
                cur.append(a)
            if cur:
                groups.append((cur, NONE))
        for xs, c in groups:
            if len(xs) == 1:
                xs = [NONE, xs[0]]
            if isinstance(c, Str) or isinstance(c, (Tup, PyList)):
                c = NONE            # a fixed colour
            put(I, 'pltdata', ('data',) + ax, Tup([toarr(I, x) for x in xs] + [toarr(I, c)]), Str(['data shown in panel %s' % (ax[1],)]), node)
        if nm in ('semilogx', 'loglog'):
            put(I, 'plttext', ('xscale',) + ax, Str(['log']), Str(['xscale']), node)
        if nm in ('semilogy', 'loglog'):
            put(I, 'plttext', ('yscale',) + ax, Str(['log']), Str(['yscale']), node)
        a = PltV('artist', ax)
        return a if nm == 'scatter' else PyList(Tup([PltV('artist', ax) for _ in groups]))
    if nm in OTHERDATA:
        put(I, 'pltdata', ('data:' + nm,) + ax, Tup([toarr(I, x) for x in args] + [toarr(I, kw[k]) for k in ('x', 'y', 'height', 'width', 'weights', 'bins') if k in kw]),
            Str(['%s shown in panel %s' % (nm, ax[1])]), node)
        return PltV('artist', ax)
    return None


def text(I, ax, nm, v, node):
    put(I, 'plttext', (nm,) + ax, v, Str(['%s of panel %s' % (nm, ax[1])]), node)


def savefig(I, n, args, kw, node):
    name = args[0] if args else kw.get('fname', NONE)
    put(I, 'pltfile', H('plot file', fpof(name)), content(I, n), name if isinstance(name, Str) else Str(['plot file']), node)


def axcall(I, ax, nm, args, kw, node):
    """method of a panel (or the pyplot function on the current one)"""
    r = draw(I, ax, nm, args, kw, node)
    if r is not None:
        return r
    if nm in TEXT:
        if args or len(kw):
            v = args[0] if args else next((kw[k] for k in ('xlabel', 'ylabel', 'label', 's', 'value') if k in kw), None)
            if v is not None:
                text(I, ax, TEXT[nm], v, node)
        return IGN
    if nm == 'set':
        for k, v in kw.items():
            if k in ('xlabel', 'ylabel', 'title', 'xscale', 'yscale'):
                text(I, ax, k, v, node)
        return IGN
    if nm in HARD:
        I.unsupported('plot call ' + nm, node)
    return IGN


def colorbar(I, ax, args, kw, node):
    if 'label' in kw:
        text(I, ax, 'clabel', kw['label'], node)
    else:
        put(I, 'plttext', ('cbar',) + ax, Str(['shown']), Str(['colorbar']), node)
    return PltV('cbar', ax)


def figcall(I, n, nm, args, kw, node):
    if nm in ('add_subplot', 'subplot'):
        ax = (n, panel(I, args, node))
        setstate(I, 'ax', ax, node)
        return PltV('ax', ax)
    if nm == 'subplots':
        return grid(I, n, args, kw, node)
    if nm == 'savefig':
        savefig(I, n, args, kw, node)
        return NONE
    if nm in ('get_axes',):
        return PyList(Tup([PltV('ax', a) for a in axes_of(I, n)]))
    if nm == 'gca':
        ax = curax(I, node)
        return PltV('ax', ax if ax[0] == n else (n, (1, 1, 1)))
    if nm == 'sca':
        if args and isinstance(args[0], PltV):
            setstate(I, 'ax', args[0].ident, node)
        return IGN
    if nm == 'colorbar':
        a = kw.get('mappable', args[0] if args else None)
        return colorbar(I, a.ident if isinstance(a, PltV) and a.ident else curax(I, node), args, kw, node)
    if nm == 'show':
        put(I, 'pltdata', ('show', n), content(I, n), Str(['figure shown']), node)
        return NONE
    if nm in ('suptitle', 'supxlabel', 'supylabel'):
        put(I, 'plttext', (nm, n), args[0] if args else NONE, Str([nm]), node)
        return IGN
    if nm in HARD:
        I.unsupported('plot call ' + nm, node)
    return IGN


def extcall(I, path, args, kw, node):
    if not path.startswith('matplotlib.pyplot.') or path.count('.') > 2:
        return IGN
    nm = path[len('matplotlib.pyplot.'):]
    if nm == 'figure':
        if args and isinstance(args[0], (Num, Str)) or 'num' in kw:
            I.unsupported('numbered figure', node)
        return PltV('fig', (newfig(I, node),))
    if nm == 'gcf':
        return PltV('fig', (curfig(I, node),))
    if nm == 'gca':
        ax = curax(I, node)
        setstate(I, 'ax', ax, node)
        return PltV('ax', ax)
    if nm == 'sca':
        if isinstance(args[0], PltV):
            setstate(I, 'fig', args[0].ident[0], node)
            setstate(I, 'ax', args[0].ident, node)
        return NONE
    if nm == 'subplots':
        n = newfig(I, node)
        return Tup([PltV('fig', (n,)), grid(I, n, args, kw, node)])
    if nm == 'close':
        setstate(I, 'nfig', state(I, 'nfig') or 0, node)
        setstate(I, 'fig', None, node)
        return NONE
    if nm == 'show':
        r = figcall(I, curfig(I, node), nm, args, kw, node)
        setstate(I, 'fig', None, node)
        return r
    if nm in ('subplot', 'savefig', 'colorbar', 'suptitle'):
        return figcall(I, curfig(I, node), 'add_subplot' if nm == 'subplot' else nm, args, kw, node)
    if nm in HARD:
        I.unsupported('plot call ' + nm, node)
        return IGN
    return axcall(I, curax(I, node), nm, args, kw, node)


def attr(I, v, name):
    if v.kind == 'fig' and name == 'axes':
        return PyList(Tup([PltV('ax', a) for a in axes_of(I, v.ident[0])]))
    if v.kind == 'ax' and name == 'figure':
        return PltV('fig', (v.ident[0],))
    if v.kind == 'cbar' and name == 'ax':
        return PltV('cbarax', v.ident)
    return ExtM(v, name)


def method(I, v, nm, args, kw, node):
    if v.kind == 'fig':
        return figcall(I, v.ident[0], nm, args, kw, node)
    if v.kind == 'ax':
        return axcall(I, v.ident, nm, args, kw, node)
    if v.kind in ('cbar', 'cbarax'):
        if nm == 'set_label' or v.kind == 'cbarax' and nm in ('set_ylabel', 'set_xlabel', 'set_title'):
            text(I, v.ident, 'clabel', args[0] if args else next(iter(kw.values()), NONE), node)
        return IGN
    if nm in HARD:
        I.unsupported('plot call ' + nm, node)
    return IGN
