"""Runs with plots: which files and windows there are, and what is drawn"""
import glob
import hashlib
import json
import os
import re

from d_vlm import standard, write_project
from drivers import num


def digest(x):
    import numpy as np
    a = np.ascontiguousarray(np.asarray(x, dtype=float) + 0.0)
    return hashlib.sha1(repr(a.shape).encode() + a.tobytes()).hexdigest()[:12]


def canon(x):
    return num(float(x) + 0.0)


def pieces(lines):
    """Straight pieces of lines, without direction"""
    out = set()
    for pts in lines:
        for p, q in zip(pts, pts[1:]):
            p, q = tuple(canon(x) for x in p), tuple(canon(x) for x in q)
            out.add(tuple(sorted((p, q))))
    return [[list(p) for p in pq] for pq in sorted(out)]


VIEWS = {('Y [m]', 'Z [m]'): 'yz', ('X [m]', 'Z [m]'): 'xz', ('X [m]', 'Y [m]'): 'xy'}


def shade(rgba, cmap):
    """Number of the colour in the table"""
    import numpy as np
    table = cmap(np.arange(cmap.N))
    d = np.abs(table - np.asarray(rgba)).max(axis=1)
    i = int(d.argmin())
    return i if d[i] < 1e-6 else -1


def faces3(c):
    """Points and colour of each face of a surface"""
    import numpy as np
    pts, cols = np.asarray(c._vec)[:3].T, np.atleast_2d(c._facecolor3d)
    return [(pts[s], cols[i % len(cols)]) for i, s in enumerate(c._segslices)]


def box(pts, colour, cmap):
    import numpy as np
    pts = np.asarray(pts)
    return {'lo': [num(x) for x in pts.min(axis=0)], 'hi': [num(x) for x in pts.max(axis=0)], 'shade': shade(colour, cmap)}


def arrow(c):
    """Direction of an arrow: a shaft and two lines of the head, all from the tip"""
    import numpy as np
    seg = [np.asarray(x) for x in getattr(c, '_segments3d', [])]
    if len(seg) == 3 and all(len(x) == 2 for x in seg):
        for tip, tail in (seg[0], seg[0][::-1]):
            if all(np.allclose(tip, x[0]) or np.allclose(tip, x[1]) for x in seg):
                return (np.asarray(tip) - np.asarray(tail)).tolist()
    return None


def content(fig):
    """What a figure shows"""
    import matplotlib
    import numpy as np
    from matplotlib.collections import LineCollection, PolyCollection
    cmap = matplotlib.cm.get_cmap('Spectral')
    out = {'dim': '', 'views': {}, 'title': '', 'bar': [], 'image': '', 'texts': [], 'arrows': []}
    for ax in fig.axes:
        if ax.images:
            out['dim'], out['image'] = 'image', digest(ax.images[0].get_array())
        elif hasattr(ax, 'get_zlim'):
            out['dim'], out['title'] = '3D', ax.get_title()
            lines = [np.array(ln.get_data_3d()).T.tolist() for ln in ax.lines]
            fills, marks = [], []
            for c in ax.collections:
                if hasattr(c, '_segslices'):
                    fills += [box(pts, col, cmap) for pts, col in faces3(c)]
                elif hasattr(c, '_offsets3d'):
                    marks += [[canon(x) for x in p] for p in zip(*(np.atleast_1d(np.ma.getdata(x)) for x in c._offsets3d))]
                elif len(getattr(c, '_segments3d', [])) > 0 and not arrow(c):
                    lines += [np.asarray(x).tolist() for x in c._segments3d]
            marks += [[canon(x) for x in ln[0]] for ln in lines if len(ln) == 1]
            out['views']['xyz'] = {'pieces': pieces(lines), 'limits': [[num(x) for x in lim] for lim in (ax.get_xlim(), ax.get_ylim(), ax.get_zlim())],
                                   'ends': sorted({tuple(canon(x) for x in p) for ln in lines for p in ln}), 'marks': marks, 'fills': fills}
            for c in ax.collections:
                if arrow(c):
                    out['arrows'].append([num(x) for x in arrow(c)])
            for t in ax.texts:
                s = t.get_text()
                m = re.search(r'Wings\s*=\s*(\d+)\s+Segments\s*=\s*(\d+)\s+Controls\s*=\s*(\d+)\s+Aircraft size\s*=\s*([\d.]+)', s)
                if m:
                    out['texts'].append({'what': 'info', 'n': [int(x) for x in m.groups()[:3]], 'v': num(m.group(4))})
                m = re.fullmatch(r'\s*([\d.]+) m/s\s*', s)
                if m:
                    out['texts'].append({'what': 'speed', 'n': [], 'v': num(m.group(1))})
        elif (ax.get_xlabel(), ax.get_ylabel()) in VIEWS:
            out['dim'] = '2D'
            v = VIEWS[ax.get_xlabel(), ax.get_ylabel()]
            lines = [np.array(ln.get_data()).T.tolist() for ln in ax.lines]
            fills, marks = [box(p.get_xy(), p.get_facecolor(), cmap) for p in ax.patches], []
            for c in ax.collections:
                if isinstance(c, LineCollection):
                    lines += [np.asarray(x).tolist() for x in c.get_segments()]
                elif isinstance(c, PolyCollection):
                    cols = c.get_facecolor()
                    fills += [box(q.vertices, cols[i % len(cols)], cmap) for i, q in enumerate(c.get_paths())]
                else:
                    marks += [[canon(x) for x in p] for p in np.asarray(c.get_offsets()).tolist()]
            marks += [[canon(x) for x in ln[0]] for ln in lines if len(ln) == 1]
            out['views'][v] = {'pieces': pieces(lines), 'limits': [[num(x) for x in lim] for lim in (ax.get_xlim(), ax.get_ylim())],
                               'ends': sorted({tuple(canon(x) for x in p) for ln in lines for p in ln}), 'marks': marks, 'fills': fills}
        elif ax.get_ylabel():
            out['bar'] = [{'label': ax.get_ylabel(), 'lo': num(min(ax.get_ylim())), 'hi': num(max(ax.get_ylim()))}]
    if out['dim'] == '2D':
        out['title'] = fig._suptitle.get_text() if fig._suptitle else ''
    return out


class Recorder:
    def __init__(self, full):
        import matplotlib
        matplotlib.use('agg')
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        import pytornado.plot.plottools as pt
        if hasattr(pt, 'NUM_POINTS'):
            pt.NUM_POINTS = 4       # only for speed
        self.figs, self.windows = [], []
        save, me = Figure.savefig, self

        def savefig(fig, fname, *a, **kw):
            kw['dpi'] = 15
            save(fig, fname, *a, **kw)
            me.figs.append((str(fname), content(fig)))

        def show(*a, **kw):
            found = [content(plt.figure(n)) for n in plt.get_fignums()]
            dims = sorted(f['dim'] for f in found)
            bar = [b['label'] for f in found for b in f['bar']]
            me.windows.append({'dims': dims, 'key': bar[0] if bar else ''})
        Figure.savefig, plt.show = savefig, show
        self.plt = plt


def files(root):
    """Number of plot files by point and name"""
    out = {}
    for f in sorted(glob.glob(f'{root}/_plots/**/*', recursive=True)):
        if os.path.isfile(f):
            d = os.path.relpath(os.path.dirname(f), f'{root}/_plots')
            out.setdefault(d, {})
            n = re.sub(r'_\d{4}-\d.*\.png$', '', os.path.basename(f))
            out[d][n] = out[d].get(n, 0) + 1
    return out


def valid(f):
    with open(f, 'rb') as fp:
        return fp.read(8) == b'\x89PNG\r\n\x1a\n' and os.path.getsize(f) > 200


def results(root, res):
    vd = res['vlmdata']
    out = {'file ' + os.path.relpath(f, root): hashlib.sha1(open(f, 'rb').read()).hexdigest()[:12]
           for f in sorted(glob.glob(f'{root}/_results/**/*', recursive=True)) if os.path.isfile(f)}
    for k, v in res['state'].results.items():
        out[f'state {k}'] = digest(v)
    for k, v in vd.panelwise.items():
        out[f'panelwise {k}'] = digest(v)
    for k in 'pvcan':
        out[f'lattice {k}'] = digest(getattr(res['lattice'], k))
    out['matrix'] = digest(vd.matrix_downwash)
    return out


def once(project, root, clean):
    path = os.path.abspath(write_project(project, root))
    from pytornado.fileio.native import settings as io_settings
    if clean:
        io_settings.load(path).clean()
        return 'ok', None
    try:
        return 'ok', standard(path)
    except Exception as x:
        return f'refused {type(x).__name__}: {x}'[:200], None


def run(case):
    rec = Recorder(True)
    os.makedirs('plain')
    os.makedirs('proj')
    root = os.path.abspath('proj')
    plain, ev = {}, []
    for e in case['hist']:
        p = json.loads(json.dumps(case['project']))
        if e['op'] == 'clean':
            once(p, 'proj', True)
            ev.append({'op': 'clean', 'files': files(root)})
            continue
        # the same without plots, once for each number of points
        p['state'] = case['states'][e['n'] - 1]
        if e['n'] not in plain:
            os.makedirs(f'plain/{e["n"]}')
            p['settings']['plot'] = {}
            oc, res = once(p, f'plain/{e["n"]}', False)
            plain[e['n']] = results(f'plain/{e["n"]}', res) if oc == 'ok' else {'outcome': oc}
        p['settings']['plot'] = e['c']
        rec.figs, rec.windows = [], []
        for f in glob.glob(f'{root}/_results/**/*', recursive=True):
            if os.path.isfile(f):
                os.remove(f)
        before = {f: open(f, 'rb').read() for f in glob.glob(f'{root}/_plots/**/*.png', recursive=True)}
        oc, res = once(p, 'proj', False)
        new = [f for f in glob.glob(f'{root}/_plots/**/*', recursive=True) if os.path.isfile(f) and f not in before]
        r = {'op': 'run', 'c': e['c'], 'n': e['n'], 'outcome': oc, 'files': files(root), 'windows': rec.windows, 'open': len(rec.plt.get_fignums()),
             'kept': all(os.path.exists(f) and open(f, 'rb').read() == t for f, t in before.items()), 'valid': all(valid(f) for f in new),
             'same': oc == 'ok' and results(root, res) == plain[e['n']], 'settings': True, 'figs': [], 'panels': [], 'data': {}, 'matrix': ''}
        if oc == 'ok':
            vd, last = res['vlmdata'], f'_{e["n"] - 1:03d}'
            r['settings'] = {k: dict(v) for k, v in res['settings'].settings['plot'].items()} == \
                {k: {**v, 'opt': v['opt'] or (['cp'] if k == 'results' else [])} for k, v in e['c'].items()}
            r['panels'] = [[[canon(x) for x in q] for q in pp] for pp in res['lattice'].p]
            r['data'] = {k: [num(x) for x in v] for k, v in vd.panelwise.items()}
            r['matrix'] = digest(vd.matrix_downwash)
            # what the figures of the last point show
            for f, c in rec.figs:
                if os.path.basename(os.path.dirname(f)).endswith(last):
                    r['figs'].append({'name': re.sub(r'_\d{4}-\d.*\.png$', '', os.path.basename(f)), **c})
        else:
            rec.plt.close('all')
        ev.append(r)
    return {'kind': 'ok', 'ev': ev}
