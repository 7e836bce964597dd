"""Drives the Python module through a script; h_py.cpp does the same through the library."""
import asyncio
import copy
import json
import pickle
import struct
import sys
import threading
import time
import numpy as np
import lmb

out = open(sys.argv[2], 'w')
NAN = -2000000000


def emit(e, **kw):
    kw['e'] = e
    out.write(json.dumps(kw) + '\n')
    out.flush()


def hx(v):
    """Every bit of the numbers in v, row by row."""
    return [struct.pack('>d', float(x)).hex() for x in np.asarray(v, dtype=float).flatten()]


def fx(v, s):
    r = v * s
    if not (-1.9e9 < r < 2.1e9):
        return NAN
    r = float(r)
    return int(np.sign(r) * np.floor(abs(r) + 0.5))


ATTRS = {'Params': ['w_lim', 'r_lim', 'nhyp_max', 'rB_max', 'nstd', 'cw_lim', 'cov_lim', 'tscale'],
         'PositionSensor': ['lambdaB', 'pD', 'kappa', 'pv'],
         'NM': ['pS', 'Q'], 'CV': ['pS', 'q'], 'BBox': ['corners'], 'AABBox': ['min', 'max'],
         'Gaussian': ['w', 'm', 'P'], 'GaussianReport': ['x', 'P', 'kappa', 'cid'],
         'Target': ['x', 'P', 'r', 'id', 'cid']}
objs = {}
tracker = None
last = None
app = None


def attrs(k, o):
    a = {n: hx(getattr(o, n)) for n in ATTRS[k]}
    if k == 'PositionSensor':
        a['fov'] = hx(o.fov.corners)
    return a


def summary(t):
    return {'id': t.id, 'cid': t.cid, 'r': fx(t.r, 1e9), 'x': [fx(t.x[0] - 30, 1e9), fx(t.x[1] - 20, 1e9), fx(t.x[2], 1e4), fx(t.x[3], 1e4)],
            'P': [fx(t.P[i, j], 1e3) for i in range(4) for j in range(4)]}


def report(z):
    return {'cid': z.cid, 'x': [fx(z.x[0] - 30, 1e9), fx(z.x[1] - 20, 1e9)], 'P': [fx(z.P[i, j], 1e6) for i in range(2) for j in range(2)], 'kappa': fx(z.kappa, 1e9)}


def corners(b):
    c = b.corners
    return [[fx(c[0, i], 1e3), fx(c[1, i], 1e3)] for i in range(4)]


def same(a, b):
    """Two objects of one kind, field by field."""
    k = type(a).__name__
    return {'kind': k, 'before': attrs(k, a), 'after': attrs(k, b), 'type': type(b).__name__ == k}


def ways(o):
    for p in range(2, pickle.HIGHEST_PROTOCOL + 1):
        yield 'pickle%d' % p, pickle.loads(pickle.dumps(o, p))
    yield 'copy', copy.copy(o)
    yield 'deepcopy', copy.deepcopy([o])[0]


def place(n, e):
    return np.array([30 + n / 1e5, 20 + e / 1e5])


def box(a):
    return lmb.AABBox(30 + a[0] / 1e5, 20 + a[1] / 1e5, 30 + a[2] / 1e5, 20 + a[3] / 1e5)


def queries(boxes, lims, truth, c, p, grid, via):
    """via: how a query is made"""
    r = {'enof': fx(via('enof_targets'), 1e6), 'nofd': via('nof_targets'), 'nof': [via('nof_targets', q) for q in lims],
         'sum': [summary(t) for t in via('get_targets')], 'reg': []}
    for b in boxes:
        r['reg'].append({'enof': fx(via('enof_targets', b), 1e6), 'nofd': via('nof_targets', b), 'nof': [via('nof_targets', b, q) for q in lims],
                         'sum': [summary(t) for t in tracker.get_targets(b)]})
    r['ospa'] = fx(tracker.ospa(truth, c, p), 1e4)
    r['gospa'] = fx(tracker.gospa(truth, c, p), 1e4)
    m = tracker.pos_phd(box(grid[:4]), np.array(grid[4:6]))
    r['phd'] = [[fx(x, 1e6) for x in row] for row in m]
    r['ncl'] = tracker.nof_clusters
    r['cnt'], r['cnr'], r['cnh'] = list(tracker.cluster_ntargets), list(tracker.cluster_nreports), list(tracker.cluster_nhyps)
    return r


def application():
    global app
    if app is None:
        app = lmb.Application(loop=asyncio.new_event_loop())
    app.tracker = tracker
    return app


def via_app(name, *a):
    ap = application()
    return ap._loop.run_until_complete(getattr(ap, name)(*a))


def race(w):
    """Predictions in one thread, queries in others, all from Python."""
    steps, readers, asks = w[:3]
    nm = lmb.NM(0.5, np.zeros((4, 4)))
    t0 = tracker.get_targets()
    def val(ts):
        return [[t.id, int(round(t.r * 2 ** 20)), int(round((t.x[0] - 30) * 1e5)), int(round((t.x[1] - 20) * 1e5))] for t in ts]
    lock = threading.Lock()
    ev = []
    def note(**k):
        with lock:
            ev.append(k)
    emit('race', dx=0, rl=int(round(tracker.params.r_lim * 2 ** 20)),
         pre=[{'id': i, 'r': int(round(r / 2 ** 13)), 'x': x, 'y': y, 'h': 1} for i, r, x, y in val(t0)])
    def write():
        for g in range(steps):
            time.sleep(1e-3)
            note(e='pb')
            tracker.predict(nm, 1.0, 0.0)
            note(e='pe')
    alls = lmb.AABBox(20, 10, 40, 30)
    def read(i):
        rng = np.random.RandomState(i)
        for n in range(asks):
            q, k = i * 1000 + n, rng.randint(6)
            time.sleep(rng.choice([0, 0, 1e-4, 1e-3]))
            lim = 0.75 * 2.0 ** -rng.randint(10)
            note(e='qb', q=q)
            if k == 0:
                v = int(round(tracker.enof_targets() * 2 ** 20))
            elif k == 1:
                v = int(round(tracker.enof_targets(alls) * 2 ** 20))
            elif k == 2:
                v = tracker.nof_targets(lim)
            elif k == 3:
                v = tracker.nof_targets(alls, lim)
            else:
                v = val(tracker.get_targets() if k == 4 else tracker.get_targets(alls))
            note(e='qe', q=q, k=k, lim=int(round(lim * 2 ** 20)), b=[-1000000, -1000000, 1000000, 1000000], v=v)
    th = [threading.Thread(target=write)] + [threading.Thread(target=read, args=(i + 1,)) for i in range(readers)]
    sys.setswitchinterval(1e-5)
    for t in th:
        t.start()
    for t in th:
        t.join()
    for k in ev:
        out.write(json.dumps(k) + '\n')
    emit('rest', gens=steps, v=val(tracker.get_targets()), idx={'n': len(tracker.get_targets(alls)), 'ids': [t.id for t in tracker.get_targets(alls)]})


def step(w):
    global tracker, last
    op, a = w[0], w[1:]
    f = [float(x) if x[0] in '-.0123456789' else x for x in a]
    if op == 'make':
        k, name = a[0], a[1]
        v = f[2:]
        if k == 'Params':
            o = lmb.Params()
        elif k == 'PositionSensor':
            o = lmb.PositionSensor()
        elif k == 'NM':
            o = lmb.NM(v[0], np.array(v[1:17]).reshape(4, 4)) if v else lmb.NM()
        elif k == 'CV':
            o = [lmb.CV, lambda p: lmb.CV(p), lambda p, q: lmb.CV(q=q, pS=p)][len(v)](*v)
        elif k == 'BBox':
            o = lmb.BBox() if not v else lmb.BBox(lmb.AABBox(*v)) if len(v) == 4 else lmb.BBox(np.array(v).reshape(2, 4))
        elif k == 'AABBox':
            o = lmb.AABBox(*v)
        elif k == 'Gaussian':
            x, P = np.array(v[:4]), np.array(v[4:20]).reshape(4, 4)
            o = lmb.Gaussian(x, P) if len(v) == 20 else lmb.Gaussian(state=x, cov=P, w=v[20])
        elif k == 'GaussianReport':
            x, P = np.array(v[:2]), np.array(v[2:6]).reshape(2, 2)
            o = lmb.GaussianReport(x, P) if len(v) == 6 else lmb.GaussianReport(state=x, cov=P, kappa=v[6])
        elif k == 'SensorReport':
            x, P = np.array(v[:2]), np.array(v[2:6]).reshape(2, 2)
            k = 'GaussianReport'
            o = lmb.GaussianReport(sensor=objs[a[8]], state=x, cov=P) if len(v) > 7 else lmb.GaussianReport(objs[a[8]], x, P)
        objs[name] = o
        # a box has room that the plain constructor leaves unset
        at = {} if k in ('AABBox', 'BBox') and not v else attrs(k, o)
        emit('make', o=name, kind=k, at=at, repr=repr(o) if len(w) < 40 and at and k not in ('Params', 'PositionSensor', 'NM', 'CV') else '')
    elif op == 'set':
        name, n, v = a[0], a[1], f[2:]
        o = objs[name]
        if n == 'fov':
            b = lmb.BBox()
            b.corners = np.array(v).reshape(2, 4)
            o.fov = b
        else:
            old = np.asarray(getattr(o, n))
            setattr(o, n, v[0] if len(v) == 1 else np.array(v).reshape(old.shape))
        emit('set', o=name, a=n, v=hx(v), at=attrs(type(o).__name__, o))
    elif op == 'boxes':
        b, o = objs[a[0]], np.array(f[1:3])
        bb = b if isinstance(b, lmb.BBox) else lmb.BBox(b)
        ab = b.aabbox() if isinstance(b, lmb.BBox) else b
        ne = ab.neaabbox(o)
        ll = lmb.AABBox(-20.0, -30.0, 40.0, 50.0).llaabbox(o)
        g = lmb.BBox()
        emit('value', py=corners(bb.nebbox(o)) + [[fx(x, 1e3) for x in list(ne.min) + list(ne.max)]] + [[fx(x, 1e6) for x in list(ab.min) + list(ab.max)]]
             + [[fx(ll.min[0] - o[0], 1e9), fx(ll.min[1] - o[1], 1e9), fx(ll.max[0] - o[0], 1e9), fx(ll.max[1] - o[1], 1e9)]])
    elif op == 'gauss':
        b1, b2 = lmb.BBox(), lmb.BBox()
        m, P = np.array(f[0:2]), np.array(f[2:6]).reshape(2, 2)
        b1.from_gaussian(m, P)
        b2.from_gaussian(m, cov=P, nstd=f[6])
        r = lmb.GaussianReport(m, P)
        o = np.array(f[7:9])
        emit('value', py=corners(b1) + corners(b2) + corners(r.nebbox(o)) + corners(r.nebbox(origin=o, nstd=f[6])))
    elif op == 'cf':
        p, o, al = f[0:2], f[2:4], f[4:6]
        c = lmb.cf
        LL, OO = np.array(p), np.array(o)
        LLA, OA = np.array(p + al[:1]), np.array(o + al[1:])
        e, ea = c.ll2ecef(LL), c.lla2ecef(LLA)
        v = [fx(x, 1e9) for R in (c.nedrot(OA), c.nerot(OO)) for x in np.asarray(R).flatten()]
        v += [fx(x, 1e2) for x in list(e) + list(ea) + list(c.ecef2ned(ea, OA)) + list(c.lla2ned(LLA, OA)) + list(c.ecef2ne(e, OO)) + list(c.ll2ne(LL, OO))]
        v += [fx(x, 1e2) for x in list(c.ned2ecef(np.array([100.0, 200.0, 30.0]), OA)) + list(c.ne2ecef(np.array([100.0, 200.0]), OO))]
        v += [fx(x, 1e6) for x in list(c.ecef2lla(ea)) + list(c.ned2lla(np.array([100.0, 200.0, 30.0]), OA)) + list(c.ecef2ll(e)) + list(c.ne2ll(np.array([100.0, 200.0]), OO))]
        emit('value', py=[v])
    elif op == 'tracker':
        tracker = lmb.Tracker(objs[a[0]]) if a else lmb.Tracker()
        objs['live'] = tracker.params
        emit('tracker', frm=a[0] if a else '', at=attrs('Params', tracker.params))
    elif op == 'scan':
        s = objs[a[0]]
        t, n = f[1], int(f[2])
        z = []
        for j in range(n):
            q = f[3 + 5 * j:8 + 5 * j]
            R = np.array([[q[2], q[3]], [q[3], q[4]]])
            z.append(lmb.GaussianReport(s, place(q[0], q[1]), R))
        last = tracker.correct(s, z, t) if len(a) % 2 else via_app('correct', s, z, t)
        emit('scan', reports=[report(r) for r in last], post=[summary(x) for x in tracker.get_targets()], ncl=tracker.nof_clusters,
             cnt=list(tracker.cluster_ntargets), cnr=list(tracker.cluster_nreports), cnh=list(tracker.cluster_nhyps))
    elif op == 'predict':
        if int(f[1]) % 2:
            tracker.predict(objs[a[0]], f[1], f[2])
        else:
            via_app('predict', objs[a[0]], f[1], f[2])
        emit('predict', post=[summary(x) for x in tracker.get_targets()])
    elif op == 'queries':
        nb, nl, nt = int(f[0]), int(f[1]), int(f[2])
        f = f[3:]
        boxes = [box(f[4 * i:4 * i + 4]) for i in range(nb)]
        f = f[4 * nb:]
        lims, f = f[:nl], f[nl:]
        truth = [np.concatenate([place(f[2 * i], f[2 * i + 1]), [0.0, 0.0]]) for i in range(nt)]
        f = f[2 * nt:]
        grid = f[2:6] + [int(f[6]), int(f[7])]
        direct = queries(boxes, lims, truth, f[0], f[1], grid, lambda n, *x: getattr(tracker, n)(*x))
        app_ = queries(boxes, lims, truth, f[0], f[1], grid, via_app)
        emit('queries', q=direct, app=app_, named=[tracker.nof_targets(r_lim=x) for x in lims] + [tracker.nof_targets(aabbox=b, r_lim=x) for b in boxes for x in lims])
    elif op == 'pickles':
        pool = [o for n, o in objs.items() if type(o).__name__ in ('BBox', 'AABBox', 'GaussianReport')]
        pool += [] if tracker is None else list(tracker.get_targets())
        pool += [] if last is None else list(last)
        emit('pickles', got=[dict(same(o, c), how=h) for o in pool if not unset(o) for h, c in ways(o)])
    elif op == 'race':
        race([int(x) for x in f])


def unset(o):
    return any(o is objs[n] for n in objs if n.startswith('raw'))


for ln in open(sys.argv[1]):
    w = ln.split()
    if w:
        step(w)
out.close()
