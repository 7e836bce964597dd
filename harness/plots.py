"""Draws scenes with the package's plots and tells what is found on the axes."""
import asyncio
import decimal
import json
import random
import sys
import warnings
import numpy as np
import matplotlib.pyplot as plt
from matplotlib.image import AxesImage
from matplotlib.lines import Line2D
from matplotlib.patches import Ellipse, Polygon
from matplotlib.text import Text
import lmb
import clmb
from lmb import cf, plot

warnings.simplefilter('ignore')
out = open(sys.argv[2], 'w')


def emit(e, **kw):
    kw['e'] = e
    out.write(json.dumps(kw) + '\n')
    out.flush()


def num(v, n=3):
    """Fixed point, with n limbs of four digits behind the point."""
    m = int(decimal.Decimal(float(v)).scaleb(4 * n, decimal.Context(prec=60)).to_integral_value())
    L, a = [], abs(m)
    while a:
        a, r = divmod(a, 10000)
        L.append(r)
    return {'n': m < 0, 'm': L}


def pt(n, e):
    return [num(n), num(e)]


def shade(c):
    return [int(round(float(v) * 1e6)) for v in matplotlib_rgb(c)]


def matplotlib_rgb(c):
    import matplotlib.colors
    return matplotlib.colors.to_rgba(c)[:3]


def artists(ax, drawn=True):
    """What is on the axes, in data coordinates."""
    got = {'lines': [], 'marks': [], 'ells': [], 'polys': [], 'texts': [], 'images': []}
    for a in ax.get_children():
        if isinstance(a, Line2D):
            pts = [pt(y, x) for x, y in zip(*a.get_data())]
            if a.get_marker() in (None, 'None', '', ' '):
                got['lines'].append({'pts': pts, 'c': shade(a.get_color())})
            else:
                got['marks'].append({'pts': pts, 'c': shade(a.get_color()), 'm': str(a.get_marker())})
        elif isinstance(a, (Ellipse, Polygon)):
            t = a.get_transform() - ax.transData
            v = a.get_path().vertices
            if isinstance(a, Ellipse):
                v = t.transform(v[::3])[:8]
                got['ells'].append({'pts': [pt(y, x) for x, y in v], 'face': shade(a.get_facecolor()), 'edge': shade(a.get_edgecolor())})
            else:
                v = t.transform(v)
                if len(v) > 1 and (v[0] == v[-1]).all():
                    v = v[:-1]
                got['polys'].append({'pts': [pt(y, x) for x, y in v], 'face': shade(a.get_facecolor())})
        elif isinstance(a, Text) and a.get_text():
            x, y = (float(np.squeeze(v)) for v in a.get_position())
            try:
                v = int(round(float(a.get_text()) * 1000))
            except ValueError:
                v = -1
            got['texts'].append({'at': pt(y, x), 's': a.get_text(), 'v': v})
        elif isinstance(a, AxesImage):
            arr = np.asarray(a.get_array())
            vmin, vmax = a.get_clim()
            got['images'].append({'a': [[int(v) for v in row] for row in arr], 'low': a.origin == 'lower',
                                  'vmin': int(round(vmin)), 'vmax': int(round(vmax)), 'extent': [num(v) for v in a.get_extent()]})
    got['view'] = [num(v) for v in ax.get_xlim() + ax.get_ylim()]
    return got


HUES = {}


def hues(keys):
    """The colour each key has, as a box of that number is drawn."""
    for k in keys:
        if k not in HUES:
            f = plt.figure()
            plot.bbox(np.array([[0., 1, 1, 0], [0, 0, 1, 1]]), k)
            HUES[k] = shade([a for a in plt.gca().get_children() if isinstance(a, Polygon)][0].get_facecolor())
            plt.close(f)
    return [[k, HUES[k]] for k in keys]


def cov(rng, S):
    """An integer covariance, sometimes slender, upright or round."""
    how = rng.choice(['any', 'any', 'any', 'slender', 'diag', 'round'])
    k = rng.choice([1, 3, 10])
    if how == 'round':
        a = rng.randint(1, 90) * np.eye(S)
    else:
        a = np.array([[rng.randint(-9, 9) * k for _ in range(S)] for _ in range(S)], dtype=float)
        if how == 'diag':
            a = np.diag(np.diag(a))
        if how == 'slender':
            a[0] *= 10
    P = a @ a.T
    if np.linalg.det(P[:2, :2]) < 0.5:
        P = P + np.eye(S)
    return P


def target(x, P, r, id_, cid):
    t = lmb.Target.__new__(lmb.Target)
    t.__setstate__((np.asarray(x, dtype=float), P, r, id_, cid))
    return t


def report(x, P, cid):
    t = lmb.GaussianReport.__new__(lmb.GaussianReport)
    t.__setstate__((np.asarray(x, dtype=float), P, 1.0, cid))
    return t


def corners(b, origin=None):
    c = b if isinstance(b, np.ndarray) else b.corners
    return [pt(c[0, k], c[1, k]) for k in range(4)]


class Stub:
    """Stands for the tracker: notes what it is asked."""
    def __init__(self):
        self.asked, self.give = [], None

    def __getattr__(self, name):
        def f(*args):
            self.asked.append([name, [str(id(a)) if not isinstance(a, (int, float)) else a for a in args]])
            return self.give
        return f


def scene(rng, whole):
    origin = np.array([rng.uniform(-70, 70), rng.uniform(-170, 170)])

    def place(far=3000):
        return cf.ne2ll(np.array([rng.uniform(-far, far), rng.uniform(-far, far)]), origin)

    def thousandths():
        return rng.choice([rng.randint(0, 1000), 300, 299, 301, 1000, 0, 500])
    c = 0 if whole else rng.choice([0, 0, 7, 100])
    lowest = 300 if whole else rng.choice([0, 300, 300, 500, thousandths()])
    so = {'on': True, 'ell': True, 'box': True, 'cc': True, 'ids': False, 'cids': True, 'c': 0} if whole else \
        {'on': rng.random() < 0.6, 'ell': rng.random() < 0.7, 'box': rng.random() < 0.5, 'cc': rng.random() < 0.5, 'ids': rng.random() < 0.4, 'cids': rng.random() < 0.4, 'c': c}
    to = {'on': True, 'ell': True, 'box': True, 'cc': True, 'rs': False, 'ids': False, 'cids': False, 'c': 0, 'min': 300} if whole else \
        {'on': rng.random() < 0.8, 'ell': rng.random() < 0.7, 'box': rng.random() < 0.5, 'cc': rng.random() < 0.5, 'rs': rng.random() < 0.4,
         'ids': rng.random() < 0.4, 'cids': rng.random() < 0.4, 'c': c, 'min': lowest}
    reps = [report(place(), cov(rng, 2), rng.randint(0, 5)) for _ in range(rng.choice([0, 1, 2, 3, 6]))]
    pool = rng.sample(range(40), 6)
    hist, told = [], []
    for k in range(rng.choice([0, 1, 1, 2, 3, 5])):
        ts, tv = [], []
        for i in pool:
            if rng.random() < 0.6:
                r, cid = thousandths(), rng.randint(0, 5)
                x, P = place(), cov(rng, 4)
                t = target([x[0], x[1], rng.uniform(-9, 9), rng.uniform(-9, 9)], P, r / 1000, i, cid)
                ts.append(t)
                p = cf.ll2ne(x, origin)
                tv.append({'id': i, 'cid': cid, 'r': r, 'at': pt(*p), 'P': [[num(P[a, b], 0) for b in range(2)] for a in range(2)],
                           'box': corners(t.nebbox(origin))})
        h = {'targets': ts}
        fov = None
        if rng.random() < 0.4:
            a, b = place(), place()
            fov = lmb.BBox()
            fov.corners = np.array([[a[0], a[0], b[0], b[0]], [a[1], b[1], b[1], a[1]]])
            h['fov'] = fov
        elif rng.random() < 0.3:
            h['fov'] = None
        hist.append(h)
        told.append(tv)
    fov = (hist[-1].get('fov') if hist else None) if to['on'] else None
    fov = corners(fov.nebbox(origin)) if fov else []
    rv = [{'at': pt(*cf.ll2ne(r.x, origin)), 'cid': r.cid, 'P': [[num(r.P[a, b], 0) for b in range(2)] for a in range(2)], 'box': corners(r.nebbox(origin))} for r in reps]
    f = plt.figure()
    ax = plt.gca()
    amap, extent, view, top = [], [], [], 0
    if whole:
        app = lmb.Application(loop=LOOP)
        app.origin = origin
        a, b = (cf.ne2ll(np.array([s * rng.uniform(500, 4000), s * rng.uniform(500, 4000)]), origin) for s in (-1, 1))
        app.region = lmb.AABBox(a[0], a[1], b[0], b[1])
        arr = np.array([[rng.randint(0, 99) for _ in range(rng.randint(2, 5))]] * 1)
        arr = np.array([[rng.randint(0, 99) for _ in arr[0]] for _ in range(rng.randint(2, 5))], dtype=float)
        arr[0, 0] = 50
        amap, top = [[int(v) for v in row] for row in arr], int(arr.max())
        ne = app.region.neaabbox(origin)
        extent = view = [num(v) for v in (ne.min[1], ne.max[1], ne.min[0], ne.max[0])]
        app.plot_tracks(arr, reps, hist)
    else:
        if rng.random() < 0.2:
            arr = np.array([[rng.randint(0, 99) for _ in range(4)] for _ in range(3)], dtype=float)
            arr[1, 1] = 7
            amap, top = [[int(v) for v in row] for row in arr], int(arr.max())
            plot.phd(arr)
            plt.sca(ax)
        if so['on']:
            plot.scan(reps, origin, covellipse=so['ell'], draw_bbox=so['box'], clustercolor=so['cc'], show_id=so['ids'], show_cid=so['cids'], c=so['c'])
        if to['on']:
            plot.tracks(hist, origin, c=to['c'], covellipse=to['ell'], draw_bbox=to['box'], clustercolor=to['cc'], min_r=to['min'] / 1000,
                        r_values=to['rs'], show_id=to['ids'], show_cid=to['cids'])
    keys = {0} | {so['c'] + k for k in range(6)} | {to['c'] + k for k in pool} | {to['c'] + k for k in range(6)}
    got = artists(ax)
    plt.close(f)
    emit('scene', hist=told if to['on'] else [], reps=rv if so['on'] else [], fov=fov, to=to, so=so, map=amap, top=top, extent=extent, view=view,
         hues=hues(sorted(keys)), got=got)


def stats(rng):
    k = rng.randint(0, 6)
    est, ver = ([rng.randint(0, 9) for _ in range(k + 1)] for _ in range(2))
    rep = [rng.choice([-1, rng.randint(0, 9)]) for _ in range(k + 1)]
    f = plt.figure()
    lmb.Application(loop=LOOP).plot_stats(k, [float('nan') if v < 0 else v for v in rep], est, ver)
    got = [[[int(x), int(y)] for x, y in zip(*a.get_data())] for a in plt.gca().lines]
    plt.close(f)
    emit('stats', est=est, rep=rep, ver=ver, got=got)


def trace(rng):
    kind = rng.choice(['GM', 'GM', 'PF'])
    id_ = rng.randint(0, 99)
    hist, t = [], None
    for _ in range(rng.randint(1, 5)):
        n = rng.choice([1, 1, 2, 3]) if kind == 'GM' else rng.randint(4, 7)
        w = [rng.randint(1, 20) for _ in range(n)]
        w = [v / sum(w) for v in w]
        xs = [[rng.uniform(-500, 500) for _ in range(4)] for _ in range(n)]
        Ps = [cov(rng, 4) for _ in range(n)]
        r = rng.randint(0, 1000)
        if kind == 'GM':
            pdf = {'type': 'GM', 'c': [{'type': 'G', 'w': w[i], 'x': [[v] for v in xs[i]], 'P': Ps[i].tolist()} for i in range(n)]}
        else:
            pdf = {'type': 'PF', 'w': [w], 'x': [[xs[i][d] for i in range(n)] for d in range(4)]}
        rec = {'id': id_, 'cid': 0, 'la': 'u', 'r': r / 1000, 'pdf': pdf}
        t = t or clmb.Target(rec)
        t.add_state(rec)
        # horizontally the first coordinate
        hist.append([{'w': num(w[i]), 'x': [num(xs[i][1]), num(xs[i][0])], 'P': [[num(Ps[i][a, b], 0) for b in (1, 0)] for a in (1, 0)]} for i in range(n)])
    back, ell, tr, rs, ids = rng.choice([0, 0, 1, 2, 9]), rng.random() < 0.6, rng.random() < 0.8, rng.random() < 0.4, rng.random() < 0.4
    seed = rng.choice([0, 1, 50])
    f = plt.figure()
    if rng.random() < 0.5:
        clmb.plot_trace(t, id_ + seed, covellipse=ell, max_back=back, r_values=rs, track_id=ids, trace=tr)
    else:
        clmb.plot_traces([t], seed, ell, back or None, r_values=rs, track_id=ids, trace=tr)
    got = artists(plt.gca())
    plt.close(f)
    emit('trace', kind=kind, id=id_, r=r, hist=hist, back=back, ell=ell, trace=tr, rs=rs, ids=ids, got=got,
         hues=[[1000 + id_ + seed, g['c']] for g in got['lines']])


def app(rng):
    a = lmb.Application(loop=LOOP)
    a.tracker = s = Stub()
    how = rng.choice(['predict', 'correct', 'get_targets', 'enof_targets', 'nof_targets', 'sample_phd'])
    o = [object(), object()]
    n = [rng.randint(0, 99), rng.randint(0, 99)]
    s.give = given = rng.randint(0, 999)
    back = None
    if how == 'predict':
        args = [o[0], n[0], n[1]]
    elif how == 'correct':
        args = [o[0], o[1], n[0]]
    elif how == 'get_targets':
        args = []
    elif how == 'sample_phd':
        arr = np.array([[rng.randint(0, 9) for _ in range(3)] for _ in range(2)], dtype=float)
        a.unknown = np.array([[rng.randint(0, 9) for _ in range(3)] for _ in range(2)], dtype=float)
        given = [[int(v) for v in row] for row in arr + a.unknown] + [[int(v) for v in row] for row in arr]
        s.give = arr
        a.region = o[0]
        args = [a.region, a.phdsize]
    else:
        args = rng.choice([[], [o[0]], [n[0]], [o[0], n[0]]])
    told = [['pos_phd' if how == 'sample_phd' else how, [str(id(v)) if not isinstance(v, (int, float)) else v for v in args]]]
    back = LOOP.run_until_complete(getattr(a, how)(*([] if how == 'sample_phd' else args)))
    if how == 'sample_phd':
        back = [[int(v) for v in row] for row in back] + [[int(v) for v in row] for row in arr]
    emit('app', asked=s.asked, told=told, given=given, back=back)


LOOP = asyncio.new_event_loop()
for x in open(sys.argv[1]):
    op, seed = x.split()
    rng = random.Random(int(seed))
    if op == 'scene':
        scene(rng, False)
    elif op == 'whole':
        scene(rng, True)
    elif op == 'stats':
        stats(rng)
    elif op == 'trace':
        trace(rng)
    elif op == 'app':
        app(rng)
out.close()
import os
os._exit(0)
