"""What each property's check runs."""
import decimal
import itertools
import json
import random
from vlib import chunks


# ---------------------------------------------------------------------------
# C03, C04: assignment and ranking
def fmt(M):
    return ' '.join('X' if x is None else str(x) for r in M for x in r)


def rand_matrix(rng, rows, cols, hi, pinf, lo=0):
    return [[None if rng.random() < pinf else rng.randint(lo, hi) for _ in range(cols)] for _ in range(rows)]


def cluster_matrix(rng, m, n):
    """Shaped like a group's costs: reports, then a miss and an absence column per target."""
    M = [[rng.choice([None, rng.randint(-30, 60)]) for _ in range(n)] for _ in range(m)]
    for i in range(m):
        for blk in range(2):
            M[i] += [rng.randint(0, 40) if k == i else rng.choice([None, 30000]) for k in range(m)]
    return M


def units(rng, L):
    """Some of the matrices in another unit."""
    return [x.replace(' ', '@%d ' % rng.choice([-40, -30, -24, -20, -10, 10, 20, 30, 40]), 1) if rng.random() < 0.3 else x for x in L]


def C03(ck):
    exe = ck.build('h_assign.cpp')
    rng, big = ck.rng, ck.thorough
    ck.pool.submit(lambda: 0)
    L = []
    add = lambda o, M: L.append('lap %s %d %d %s' % (o, len(M), len(M[0]), fmt(M)))
    # every 2x2 and 2x3 matrix over a few entries, as in the design model
    for v in itertools.product([0, 1, 2, None], repeat=4):
        add('r', [v[:2], v[2:]])
        add('c', [v[:2], v[2:]])
    vals = [0, 1, None]
    for v in itertools.product(vals, repeat=6):
        add('rc'[len(L) % 2], [v[:3], v[3:]])
    for v in itertools.product(vals, repeat=9):
        if big or rng.random() < 0.12:
            add('rc'[len(L) % 2], [v[:3], v[3:6], v[6:]])
    for _ in range(30000 if big else 3000):
        r = rng.randint(1, 4)
        c = rng.randint(r, 6)
        add(rng.choice('rc'), rand_matrix(rng, r, c, rng.choice([2, 5, 50, 30000]), rng.choice([0, 0.1, 0.3, 0.6]), rng.choice([0, 0, -20])))
    for _ in range(5000 if big else 700):
        r = rng.randint(3, 14)
        c = r if rng.random() < 0.4 else rng.randint(r, 20)
        add(rng.choice('rc'), rand_matrix(rng, r, c, rng.choice([1, 3, 10, 1000]), rng.choice([0, 0, 0.3, 0.6, 0.8]), rng.choice([0, -10])))
    for _ in range(200 if big else 30):
        r = rng.randint(25, 48)
        add(rng.choice('rc'), rand_matrix(rng, r, r + rng.choice([0, 0, 3, 10]), rng.choice([3, 1000]), rng.choice([0, 0.3, 0.9])))
    for _ in range(2000 if big else 300):
        m = rng.randint(1, 5)
        add('r', cluster_matrix(rng, m, rng.randint(0, 5)))
    # nearly equal columns, fewer of them good than rows compete for
    for _ in range(3000 if big else 300):
        r = rng.randint(2, 9)
        c = r + rng.choice([0, 0, 0, 2])
        k = rng.randint(1, r)
        far = rng.choice([5, 94, 3000])
        add(rng.choice('nm'), [[rng.randint(0, min(9, far)) for _ in range(k)] + [far] * (c - k) for _ in range(r)])
    for _ in range(1000 if big else 100):
        r = rng.randint(2, 7)
        add(rng.choice('nm'), rand_matrix(rng, r, rng.randint(r, 9), rng.choice([2, 5, 90]), rng.choice([0, 0.2])))
    rng.shuffle(L)
    ck.model('Murty', 'SPECIFICATION Spec\nCONSTANT Matrices <- Mats22\nCONSTANT Stride = 1\nINVARIANTS Ranked Partition BoundsHold\nPROPERTY Ends\n', 'every 2x2 matrix over {0,1,2,INF}')
    ck.conform('AssignTrace', exe.result(), chunks(units(rng, L), 8))
    ck.notes['matrices'] = len(L)


def C04(ck):
    exe = ck.build('h_assign.cpp')
    rng, big = ck.rng, ck.thorough
    ck.model('Murty', 'SPECIFICATION Spec\nCONSTANT Matrices <- Mats22\nCONSTANT Stride = 1\nINVARIANTS Ranked Partition BoundsHold\nPROPERTY Ends\n', 'every 2x2 matrix over {0,1,2,INF}')
    ck.model('Murty', 'SPECIFICATION Spec\nCONSTANT Matrices <- Mats23\nCONSTANT Stride = %d\nINVARIANTS Ranked Partition BoundsHold\n' % (5 if big else 37), '2x3 matrices over {0,1,INF}', workers=8)
    L = []
    add = lambda d, M: L.append('murty %d %d %d %s' % (d, len(M), len(M[0]), fmt(M)))
    for v in itertools.product([0, 1, 2, None], repeat=4):
        add(10, [v[:2], v[2:]])
    for v in itertools.product([0, 1, None], repeat=6):
        add(10, [v[:3], v[3:]])
    for v in itertools.product([0, 1, None], repeat=9):
        if big or rng.random() < 0.1:
            add(10, [v[:3], v[3:6], v[6:]])
    for _ in range(20000 if big else 2000):
        r = rng.randint(1, 4)
        c = rng.randint(r, 6)
        add(rng.choice([3, 20, 500]), rand_matrix(rng, r, c, rng.choice([2, 5, 50, 30000]), rng.choice([0, 0.1, 0.3, 0.6]), rng.choice([0, 0, -20])))
    for _ in range(1500 if big else 150):
        m = rng.randint(1, 4)
        add(rng.choice([5, 100, 3000]), cluster_matrix(rng, m, rng.randint(0, 3)))
    for _ in range(300 if big else 24):
        r = rng.randint(5, 6)
        add(rng.choice([30, 800]), rand_matrix(rng, r, r + rng.choice([0, 0, 1]), rng.choice([2, 10, 1000]), rng.choice([0.2, 0.4])))
    rng.shuffle(L)
    ck.conform('AssignTrace', exe.result(), chunks(units(rng, L), 8))
    ck.notes['matrices'] = len(L)


# ---------------------------------------------------------------------------
# C01, C02: the spatial index
def line(op, *a):
    return ' '.join([op] + [str(x) for x in a])


def rtree_history(rng, ids, steps, grid, phase, probe, copies):
    """Grow and shrink phases; unique ids; removals with the stored box, or of absent ids."""
    L, es = ['new'], {}
    style = rng.choice(['boxes', 'points', 'thin', 'same', 'far'])
    same = None

    def box():
        nonlocal same
        if style == 'same' and same and rng.random() < 0.7:
            return same
        g = grid * (1000 if style == 'far' and rng.random() < 0.5 else 1)
        x, y = rng.randint(-g, g), rng.randint(-g, g)
        w = {'points': 0, 'thin': rng.choice([0, g]), 'boxes': rng.randint(0, g), 'same': 2, 'far': rng.randint(0, 3)}[style]
        h = 0 if style in ('points', 'thin') else rng.randint(0, max(1, g // 2))
        if style == 'thin' and rng.random() < 0.5:
            w, h = h, w
        same = (x, y, x + w, y + h)
        return same
    for k in range(steps):
        grow = (k // phase) % 2 == 0
        r = rng.random()
        if r < probe:
            op = rng.choice(['query', 'query', 'query', 'stop', 'count', 'iterate'] + (['saveload'] if copies else []))
            b = box() if rng.random() < 0.8 else (-10 ** 6, -10 ** 6, 10 ** 6, 10 ** 6)
            if op == 'stop':
                L.append(line('stop', rng.randint(1, 6), *b))
            elif op == 'query':
                L.append(line('query', *b))
            elif op == 'saveload':
                L += ['saveload', 'count', 'citerate', line('cquery', *b), line('cquery', *box())]
            else:
                L.append(op)
        elif r < probe + 0.03 and len(es) < ids:
            L.append(line('remove', rng.choice([i for i in range(1, ids + 1) if i not in es]), *box()))
        elif rng.random() < (0.85 if grow else 0.12) and len(es) < ids or not es:
            i = rng.choice([i for i in range(1, ids + 1) if i not in es])
            es[i] = box()
            L.append(line('insert', i, *es[i]))
        elif rng.random() < 0.3:       # moved, as the tracker moves its targets
            i = rng.choice(sorted(es))
            L.append(line('remove', i, *es[i]))
            b = es[i]
            es[i] = tuple(x + d for x, d in zip(b, (rng.randint(-2, 0),) * 2 + (rng.randint(0, 2),) * 2))
            L.append(line('insert', i, *es[i]))
        elif rng.random() < 0.002:
            es = {}
            L.append('clear')
        else:
            i = rng.choice(sorted(es))
            L.append(line('remove', i, *es.pop(i)))
    L += ['query -1000000000 -1000000000 1000000000 1000000000', 'count', 'iterate']
    for i in rng.sample(sorted(es), len(es)):
        L.append(line('remove', i, *es[i]))
        if rng.random() < 0.2:
            L += ['query -1000000000 -1000000000 1000000000 1000000000', 'count']
    L += ['query -1000000000 -1000000000 1000000000 1000000000', 'count', 'iterate']
    return L


def index_check(ck, copies):
    exe = ck.build('h_rtree.cpp')
    big = ck.thorough
    cfg = ('SPECIFICATION Spec\nCONSTANTS MaxN = 3 MinN = 2 Ids = {%s} Points = {%s}\n'
           'INVARIANTS Exact Shape Findable\nCHECK_DEADLOCK FALSE\n')
    ck.model('RTreeDesign', cfg % ('1,2,3,4,5,6', '1,2'), '6 entries, 2 points', workers=8)
    if big:
        ck.model('RTreeDesign', cfg % ('1,2,3,4,5', '1,2,3'), '5 entries, 3 points', workers=8)
    gen = ck.behaviours('IndexGen', 'INIT Init\nNEXT Next\nCONSTANTS Many = 60 Grid = 3 Length = 300 Phase = 70\nCHECK_DEADLOCK FALSE\n',
                        200 if big else 24, 303)
    hs = []
    for h in gen:
        L = ['new']
        for o in h:
            if o[0] == 'end':
                continue
            L.append(line(o[0], o[1], *o[2]) if o[0] in ('insert', 'remove') else line(o[0], *o[2]))
            if o[0] == 'query' and ck.prop == 'C02':
                L += [line('stop', o[1], *o[2]), 'count'] + (['iterate', 'saveload', 'citerate'] if o[1] == 5 else [])
        hs.append(L)
    rng = ck.rng
    for _ in range(600 if big else 60):
        ids = rng.choice([6, 12, 30, 80, 150])
        hs.append(rtree_history(rng, ids, rng.randint(2, 5) * ids, rng.choice([2, 5, 20]), ids, rng.choice([0.1, 0.4]), copies))
    for _ in range(12 if big else 2):
        hs.append(rtree_history(rng, 700, 2500, 50, 900, 0.03, False))
    scripts = ['\n'.join(x for h in hs[i::16] for x in h) + '\n' for i in range(16)]
    ck.conform('IndexTrace', exe.result(), scripts)
    ck.notes.update(histories=len(hs), generated_by_TLC=len(gen))


def C01(ck):
    index_check(ck, False)


def C02(ck):
    index_check(ck, True)


# ---------------------------------------------------------------------------
# C05 - C10, C14: the tracker over the accounting density
def spy_table(rng, mode, nrep):
    A = rng.choice([1, 2, 3, 5])
    L = ['table', A, nrep]
    extreme = mode == 'extreme'
    for _ in range(A):
        row = [rng.choice([0, 1, 1, 5, 20, 64, 127, 128, 300, 1000, rng.randint(1, 1000)]) for _ in range(nrep)]
        if extreme:
            row = [max(1, x) for x in row]
        pm = 0 if extreme else rng.choice([0, 13, 64, 128, rng.randint(0, 128)])
        L += row + [pm, rng.choice([-300, -900, -60, 300, 800]) if extreme else 0]
    return line(*L)


def spy_scan(rng, op, nrep, area, birthish=False):
    L = [op, nrep]
    for _ in range(nrep):
        # the box may be a point; the covariance (2 hx, 2 hy stand for it) says the newborn's shape
        L += [rng.randint(-area, area), rng.randint(-area, area), rng.choice([0, 1, 1, 2, 3]), rng.choice([0, 1, 1, 2, 4])]
        L += [rng.randint(-area, area), rng.randint(-area, area), rng.randint(0, 3), rng.randint(0, 3), rng.choice([1, 1, 1, 2, 40])]
    return line(*L)


def spy_history(rng, mode):
    """One tracker from its first target on."""
    H = []
    limits = mode == 'limits'
    r_lim = rng.choice([0, 1, 6, 13, 32, 32, 64])
    if mode in ('life', 'births', 'twin', 'few'):
        r_lim = rng.choice([1, 6, 16, 32, 32, 64] + ([128] if mode == 'births' else []))
    wn, wd = (rng.choice([(0, 1), (1, 100), (1, 10), (1, 3), (1, 2), (1, 1000), (9, 10)]) if limits else (0, 1))
    nh = rng.choice([1, 2, 3, 5, 8, 20, 100]) if limits else 1000000 if mode in ('exist', 'extreme', 'twin', 'few') else rng.choice([2, 20, 60])
    cov = rng.choice([5, 10, 25, 50, 150])
    H.append(line('new', r_lim, wn, wd, nh, rng.choice([0, 32, 64, 102, 128]), cov))
    area = rng.choice([5, 9, 14] if mode == 'few' else [2, 5, 9, 14])
    if mode == 'groups':
        area = rng.choice([5, 9, 14, 25])
    fov = rng.random()
    if fov < 0.5:
        H.append('fov 0 -1000 -1000 1000 1000')
    elif fov < 0.85:
        a, b = sorted(rng.sample(range(-area - 3, area + 4), 2)), sorted(rng.sample(range(-area - 3, area + 4), 2))
        H.append(line('fov', 0, a[0], b[0], a[1], b[1]))
    else:
        H.append(line('fov', 1, rng.randint(-area, area), rng.randint(-area, area), rng.randint(1, area + 2)))
    H.append(line('sensor', rng.choice([32, 64, 128, 128, 128, 256, 512]), rng.randint(1, 9), rng.randint(1, 9)))
    small = mode in ('exist', 'limits', 'extreme', 'twin', 'few')
    count = rng.randint(0, 4 if small else 8)
    for _ in range(count):
        H.append(line('target', rng.randint(1, 128), rng.randint(-area, area), rng.randint(-area, area),
                      rng.randint(0, 3), rng.randint(0, 3), rng.choice([1, 1, 2, 2, 5])))
    def poke():
        if mode == 'extreme':
            return 'poke 128'
        return line('poke', *[rng.choice([128, 1, 64, rng.randint(1, 128), rng.randint(1, 128)]) for _ in range(rng.choice([1, 3, 7]))])
    rounds = {'exist': 1, 'limits': 1, 'extreme': 1, 'twin': 1, 'few': 2}.get(mode) or rng.randint(2, 6)
    if small and rng.random() < 0.3:
        rounds += 1
    def nreps():
        return rng.randint(0, 3 if limits else 4) if small else rng.choice([0, 1, 1, 2, 4, 4, 8 if mode in ('groups', 'births') else 5])
    for _ in range(rounds):
        if not small and rng.random() < 0.6:
            eta = [rng.choice([128, 128, 128, 64, 32, 0])] if rng.random() < 0.5 else [rng.choice([128, 64, 120, 0]) for _ in range(5)]
            if rng.random() < 0.4:
                H.append(poke())
            H.append(line('predict', rng.randint(-2, 2), rng.randint(-2, 2), rng.randint(0, 1), rng.choice([0, 0, 1, 3]),
                          rng.choice([128, 128, 64, 120]), *eta))
        n = nreps()
        H.append(poke())
        H.append(spy_table(rng, mode, max(n, 1)))
        if mode == 'twin':
            H.append(spy_scan(rng, 'twin', n, area))
        H.append(spy_scan(rng, 'scan', n, area))
        if mode in ('life', 'queries') and rng.random() < 0.5:
            H.append(poke())
        if mode == 'queries' or rng.random() < 0.1:
            q = []
            for _ in range(rng.randint(0, 4)):
                x, y = rng.randint(-area - 4, area + 4), rng.randint(-area - 4, area + 4)
                q += [x, y, x + rng.randint(0, area), y + rng.randint(0, area)]
            H.append(line('queries', *q))
    return H


def spy_check(ck, modes, n, nbig):
    exe = ck.build('h_spy.cpp')
    rng = ck.rng
    hs = []
    for i in range(nbig if ck.thorough else n):
        hs.append(spy_history(rng, modes[i % len(modes)]))
    k = 32 if ck.thorough else 16
    scripts = ['\n'.join(x for h in hs[i::k] for x in h) + '\n' for i in range(k)]
    ck.conform('TrackerTrace', exe.result(), scripts)
    ck.notes.update(histories=len(hs))


def C05(ck):
    spy_check(ck, ['groups', 'groups', 'life'], 300, 4000)


def C06(ck):
    spy_check(ck, ['exist', 'exist', 'extreme', 'few'], 400, 6000)


def C07(ck):
    spy_check(ck, ['limits', 'limits', 'exist'], 400, 5000)


def C08(ck):
    spy_check(ck, ['births', 'life'], 400, 5000)


def C09(ck):
    spy_check(ck, ['life', 'births', 'queries'], 300, 4000)


def C10(ck):
    spy_check(ck, ['twin', 'groups', 'life'], 400, 4000)


def C22(ck):
    ck.build('h_geo.cpp')
    spy_check(ck, ["life", "births", "groups"], 200, 4000)
    geo_check(ck, geo_history, 150, 4000)


def C14(ck):
    ck.build('h_geo.cpp')
    spy_check(ck, ['queries'], 300, 4000)
    geo_check(ck, lambda r: phd_history(r) + metric_history(r), 60, 2000)


# ---------------------------------------------------------------------------
# C11 - C13, C17, C18, C21: the numeric parts
def psd(rng, n, hi, base=1):
    """A positive definite integer matrix, lower triangle by rows."""
    k = rng.choice([0, 1, 2, 3])
    A = [[rng.randint(-k, k) for _ in range(n)] for _ in range(n)]
    P = [[sum(A[i][m] * A[j][m] for m in range(n)) for j in range(n)] for i in range(n)]
    for i in range(n):
        P[i][i] += rng.randint(base, hi)
    return P


def low(P):
    return [P[i][j] for i in range(len(P)) for j in range(i + 1)]


def dyadic(rng, n, total=128, zeros=False):
    """n non-negative integers with the given sum."""
    c = sorted(rng.randint(0, total) for _ in range(n - 1)) if zeros else sorted(rng.sample(range(1, total), n - 1))
    return [b - a for a, b in zip([0] + c, c + [total])]


def mixture(rng, n, X, V, hi, zeros=False, place=None):
    L = [n]
    for i, w in enumerate(dyadic(rng, n, zeros=zeros)):
        x = place(i) if place else [rng.randint(-X, X), rng.randint(-X, X)]
        L += [w] + x + [rng.randint(-V, V), rng.randint(-V, V)] + low(psd(rng, 4, hi))
    return L


SIDES = {0: lambda s: [0, 0], 1: lambda s: [s, 0], 2: lambda s: [0, s], 3: lambda s: [-s, 0], 4: lambda s: [0, -s]}


def aside(rng, side, wide):
    """A point well inside or well outside the field of view."""
    if side == 0:
        return [rng.randint(-wide, wide), rng.randint(-wide, wide)]
    s = rng.choice([-1, 1]) * rng.randint(60, 90)
    return [s if side in (1, 3) else rng.randint(-wide, wide), s if side in (2, 4) else rng.randint(-wide, wide)]


def somewhere(rng):
    return [rng.randint(-60, 60), rng.randint(-170, 170)]


def kal_line(rng):
    side = rng.choice([0, 0, 1, 2, 3, 4])
    n = rng.choice([1, 1, 2, 3])
    wide = rng.choice([3, 10, 40])
    R = psd(rng, 2, 300 if side else rng.choice([1, 5, 40]))
    z = [rng.randint(-wide, wide), rng.randint(-wide, wide)] if side == 0 else [rng.randint(-40, 40), rng.randint(-40, 40)]
    m = mixture(rng, n, wide, 9, 3 if side else rng.choice([1, 4, 30]), place=lambda i: aside(rng, side, wide))
    return line('kal', rng.choice([128, 128, 115, 64, rng.randint(1, 128), 0]), side, rng.choice([128, 1, 5, 64, 300, rng.randint(1, 1000)]), 0,
                *somewhere(rng), *z, *low(R), *m)


def edge_line(rng):
    """Predicted seven deviations on one side of the edge of the field of view, corrected to the other side."""
    side = rng.randint(1, 4)
    a = 0 if side in (1, 3) else 1
    s = rng.choice([-1, 1])
    sd = rng.randint(30, 55)
    x, z = [rng.randint(-9, 9), rng.randint(-9, 9)], [rng.randint(-9, 9), rng.randint(-9, 9)]
    x[a], z[a] = s * (7 * sd + rng.randint(1, 9)), -s * rng.randint(15, 30)
    P = psd(rng, 4, 4)
    P[a][a] = sd * sd
    return line('kal', rng.choice([128, 100, 64]), side, rng.choice([128, 64, 300]), 40, *somewhere(rng), *z, *low(psd(rng, 2, 2)), 1, 128, *x, rng.randint(-9, 9), 0, *low(P))


def see_line(rng):
    k = rng.randint(1, 30)
    pd = rng.choice([128, 100, 64, 0])
    kind = rng.choice(['half', 'half', 'quad', 'plus', 'minus'])
    th = rng.choice([0, 90, 180, 270]) if rng.random() < 0.3 else rng.randint(0, 359)
    at = somewhere(rng)
    m = [rng.randint(-50, 50), rng.randint(-50, 50)]
    if kind == 'half':
        return line('see', pd, th, 0, 6, *at, *low(psd(rng, 2, 20)), *m)
    if kind == 'quad':
        return line('see', pd, th, 1, 3, *at, k, 0, k, *m)
    s = 1 if kind == 'plus' else -1
    return line('see', pd, rng.choice([0, 180]), 1, 5 if s > 0 else 1, *at, 4 * k, 3 * s * k, 3 * k, *m)


def mix_lines(rng, big_):
    c = rng.choice('3359')
    lim = rng.choice([0, 1, 1, 2, 5, 16, 32, 64])
    if rng.random() < 0.6:
        k = rng.randint(1, 5)
        W = [rng.choice([0, 1, 16, 64, 128, rng.randint(0, 128)]) for _ in range(k)]
        L = ['join' + c, lim, k] + W
        for _ in range(k):
            n = rng.choice([0, 1, 2, 3, 6]) if c != '9' or rng.random() < 0.8 else rng.randint(40, 90)
            L += [n] + [rng.choice([0, 1, 8, 32, 64, 128, rng.randint(0, 128)]) for _ in range(n)]
        return line(*L)
    L = ['plus' + c, lim]
    for _ in range(2):
        n = rng.choice([0, 1, 2, 3, 5]) if c != '9' or rng.random() < 0.8 else rng.randint(90, 130)
        L += [n] + [rng.choice([0, 1, lim, lim + 1, max(0, lim - 1), 64, rng.randint(0, 128)]) for _ in range(n)]
    return line(*L)


def pf_line(rng):
    N = rng.choice([8, 8, 32])
    def particles(side, wide):
        seen, L = set(), []
        for w in dyadic(rng, N, zeros=rng.random() < 0.3):
            while True:
                x = tuple(aside(rng, side, wide) + [rng.randint(-9, 9), rng.randint(-9, 9)])
                if x not in seen:
                    break
            seen.add(x)
            L += [w] + list(x)
        return L
    side = rng.choice([0, 1, 2, 3, 4])
    wide = rng.choice([5, 30])
    if rng.random() < 0.6:
        return line('pf%d' % N, rng.choice([128, 128, 64, rng.randint(0, 128)]), side, *somewhere(rng), rng.choice([128, 3, 40, 900]),
                    rng.randint(-40, 40), rng.randint(-40, 40), *low(psd(rng, 2, rng.choice([4, 400]))), *particles(side, wide))
    k = rng.randint(1, 4)
    off = rng.sample(range(-4, 5), k)
    L = ['pfjoin%d' % N, 128, 0, 0, 0, k] + [rng.choice([0, 1, 64, 128, rng.randint(0, 128)]) for _ in range(k)]
    for j in range(k):
        P = particles(0, 30)
        P[1::5] = [x + 100 * off[j] for x in P[1::5]]     # apart from those of the others
        L += P
    return line(*L)


def motion_line(rng):
    if rng.random() < 0.25:
        return line('nm', rng.randint(1, 128), rng.choice([128, 120, 64, rng.randint(1, 128)]), 0, rng.choice([1, 4, 8]), *([k := rng.randint(1, 3)] + [rng.randint(0, 9) for _ in range(k)]),
                    *low(psd(rng, 4, 5, 0)), *mixture(rng, rng.choice([1, 2, 3]), 90, 20, 30))
    k = rng.choice([1, 1, 2, 3])
    return line('cv', rng.randint(1, 128), rng.choice([128, 127, 120, 64, rng.randint(60, 128)]), rng.choice([0, 1, 1, 2, 5]), rng.choice([1, 2, 4, 4, 8, 40]),
                k, *[rng.choice([0, 1, 2, 3, 4, 4, 8, rng.randint(0, 8)]) for _ in range(k)], *mixture(rng, rng.choice([1, 1, 2, 4]), 90, 20, rng.choice([5, 60])))


def rect(rng, g):
    """A rotated rectangle with integer corners, in any order round."""
    cx, cy = rng.randint(-g, g), rng.randint(-g, g)
    while True:
        a, b = rng.randint(-5, 5), rng.randint(-5, 5)
        if a or b:
            break
    m, n = rng.randint(1, rng.choice([1, 3, 8])), rng.randint(1, rng.choice([1, 3, 8]))
    u, v = (a * m, b * m), (-b * n, a * n)
    c = [(cx + s * u[0] + t * v[0], cy + s * u[1] + t * v[1]) for s, t in ((1, 1), (-1, 1), (-1, -1), (1, -1))]
    k = rng.randrange(4)
    c = c[k:] + c[:k]
    return c[::-1] if rng.random() < 0.5 else c


def box_line(rng):
    if rng.random() < 0.1:
        n = rng.randint(1, 12)
        return line('points', n, *[rng.randint(-99, 99) for _ in range(2 * n)])
    g = rng.choice([5, 15, 40])
    L, cs = ['boxes'], []
    for _ in range(2):
        c = rect(rng, g)
        cs += c
        L += [x for p in c for x in p]
    for _ in range(2):
        if rng.random() < 0.3:      # a cross or a nested box
            x, y, w, h = rng.randint(-3, 3), rng.randint(-3, 3), rng.choice([1, 30]), rng.choice([1, 30])
            a = [x - w, y - h, x + w, y + h]
        else:
            a = [rng.randint(-g, g) for _ in range(4)]
        L += a
    for _ in range(8):
        p = rng.choice(cs) if rng.random() < 0.4 else (rng.randint(-g, g), rng.randint(-g, g))
        L += [p[0] + rng.randint(-2, 2), p[1] + rng.randint(-2, 2)]
    return line(*L)


def region_line(rng):
    if rng.random() < 0.35:
        return line('mixbox', rng.choice([1, 4, 7, 8, 12]), *mixture(rng, rng.choice([1, 2, 3, 5]), rng.choice([0, 5, 90]), 9, rng.choice([2, 90])))
    P = psd(rng, 2, rng.choice([1, 10, 2000]))
    if rng.random() < 0.4:
        k = rng.randint(-900, 900)      # eccentric, any orientation
        P = [[P[0][0] + k * k, k * (j := rng.randint(-30, 30))], [0, P[1][1] + j * j]]
    if rng.random() < 0.2:
        P = [[5, 0], [0, 5]]
    return line('gauss', rng.choice([1, 4, 7, 8, 12]), rng.randint(-900, 900), rng.randint(-900, 900), *low(P))


def num_check(ck, gen, n, nbig, flags=()):
    exe = ck.build('h_num.cpp', *flags)
    L = [gen(ck.rng) for _ in range(nbig if ck.thorough else n)]
    ck.conform('NumTrace', exe.result(), chunks(L, 32 if ck.thorough else 8), env={'OMP_NUM_THREADS': '1'})
    ck.notes['inputs'] = ck.notes.get('inputs', 0) + len(L)


def C11(ck):
    ck.build('h_num.cpp')
    spy_check(ck, ['life', 'births'], 200, 4000)
    num_check(ck, motion_line, 1500, 30000)


def C12(ck):
    num_check(ck, lambda r: mix_lines(r, ck.thorough) if r.random() < 0.8 else line('mom', *mixture(r, r.randint(1, 5), 90, 20, 50)), 4000, 60000)


def dens_line(rng):
    n = rng.choice([1, 2, 3, 5, 8])
    how = rng.randint(0, 4)
    far = rng.choice([3, 10, 40, 90])
    m = mixture(rng, rng.choice([1, 1, 2, 3]), far, 9, rng.choice([1, 4, 30, 200]))
    pts = []
    for _ in range(n):
        pts += [rng.randint(-far, far), rng.randint(-far, far), rng.choice([0, 0, 1, 64, 300])]
    return line('dens', how, rng.choice([128, 1, 64, 100, 256]) if how < 2 else rng.choice([128, 1, 127, rng.randint(1, 128)]), rng.choice([1, 1, 2]), n, *pts, *m)


def C26(ck):
    num_check(ck, dens_line, 700, 12000)


def C13(ck):
    num_check(ck, lambda r: (edge_line if r.random() < 0.2 else kal_line)(r) if r.random() < 0.8 else see_line(r), 1500, 24000)


def C17(ck):
    num_check(ck, box_line, 4000, 80000)


def C18(ck):
    num_check(ck, region_line, 4000, 60000)


def C21(ck):
    num_check(ck, pf_line, 500, 8000)


# ---------------------------------------------------------------------------
# C14 - C16, C22: in geographic coordinates
def pcov(rng, lo, hi):
    """A positive definite 2 x 2 covariance with standard deviations between lo and hi."""
    s, t = rng.randint(lo, hi), rng.randint(lo, hi)
    rho = rng.choice([0, 0, 0.5, -0.5, 0.9, -0.9])
    return [s * s, round(rho * s * t), t * t]


def geo_history(rng):
    particles = rng.random() < 0.2
    L = [line('new', int(particles), rng.randint(0, 4), rng.choice([-170, -20, 7, 111]), rng.choice([4, 6, 8, 8, 12]))]
    cs = []
    for _ in range(rng.randint(1, 2 if particles else 4)):
        cn, ce = rng.randint(-600, 600), rng.randint(-600, 600)
        k = 1 if particles else rng.choice([1, 1, 2, 3])
        t = ['target', rng.randint(20, 128), k]
        ws = {1: [128], 2: rng.choice([[64, 64], [28, 100]]), 3: rng.choice([[40, 40, 48], [10, 20, 98]])}[k]
        for w in ws:
            n, e = cn + rng.randint(-80, 80), ce + rng.randint(-80, 80)
            cs.append((n, e))
            t += [w, n, e, rng.randint(-9, 9), rng.randint(-9, 9)] + pcov(rng, 2, rng.choice([5, 20, 50])) + [rng.randint(1, 9)]
        L.append(line(*t))
    for _ in range(rng.randint(1, 3) if particles else rng.randint(2, 6)):
        o = rng.random()
        if o < 0.25 or particles and o < 0.5:
            L.append(line('nm', rng.choice([1, 1, 2, 10]), *rng.choice([[0, 0], [0, 0], [rng.randint(0, 30), rng.randint(0, 30)]])))
        elif o < 0.45 or particles:
            L.append(line('cv', rng.randint(1, 5)))
        else:
            f = rng.random()
            if f < 0.4:
                fov = [-1400, -1400, 1400, 1400]
            else:
                a, b = sorted(rng.sample(range(-900, 900), 2)), sorted(rng.sample(range(-900, 900), 2))
                fov = [a[0], b[0], a[1], b[1]]
            s = ['scan', rng.choice([0, 128, 128, 115, 64]), rng.choice([1, 100, 10000]), rng.choice([0, 64, 128])] + fov + [0]
            n = rng.choice([0, 1, 1, 2, 4])
            s.append(n)
            for _ in range(n):
                p = rng.choice(cs) if rng.random() < 0.8 else (rng.randint(-900, 900), rng.randint(-900, 900))
                s += [p[0] + rng.randint(-30, 30), p[1] + rng.randint(-30, 30)] + pcov(rng, 2, rng.choice([5, 20, 50]))
            L.append(line(*s))
    return L


def phd_history(rng):
    L = [line('new', 0, rng.randint(0, 4), rng.choice([-170, 7, 111]), 12)]
    mode = rng.choice([0, 0, 0, 0, 1, 2, 3])
    if mode == 0:
        nx, ny = rng.choice([(1, 1), (4, 4), (3, 7), (12, 5), (1, 6), (9, 2), (20, 20)])
        cell = [rng.randint(6, 50) * 4, rng.randint(6, 50) * 4]
        lo = [rng.randint(-900, 100), rng.randint(-900, 100)]
        while nx * cell[0] > 1900 or ny * cell[1] > 1900:
            cell = [24, 24]
        hi = [lo[0] + nx * cell[0], lo[1] + ny * cell[1]]
        for _ in range(rng.randint(0, 5)):
            k = rng.choice([1, 1, 1, 2, 3])
            t = ['target', rng.randint(1, 128), k]
            for w in dyadic(rng, k) if k > 1 else [128]:
                i, j = rng.randint(-1, nx), rng.randint(-1, ny)
                q = min(cell) // 24
                t += [w] + [lo[d] + cell[d] * x + cell[d] // 2 + rng.choice([-1, 0, 1]) * (cell[d] // 5) for d, x in ((0, i), (1, j))]
                t += [0, 0] + [rng.randint(1, max(1, q * q)), 0, rng.randint(1, max(1, q * q)), 1]
            L.append(line(*t))
        L.append(line('phd', *lo, *hi, nx, ny, 0))
    elif mode < 3:
        s = rng.randint(1, 6)
        c = [rng.randint(-500, 500), rng.randint(-500, 500)]
        L.append(line('target', rng.randint(10, 128), 1, 128, *c, 0, 0, 4 * s * s, (3 if mode == 1 else -3) * s * s, 3 * s * s, 1))
        L.append(line('phd', c[0] - 20 * s, c[1] - 20 * s, c[0] + 20 * s, c[1] + 20 * s, 2, 2, mode))
    else:
        s, t = rng.choice([(3, 30), (40, 5), (10, 10), (2, 9)])
        c = [rng.randint(-500, 500), rng.randint(-500, 500)]
        L.append(line('target', rng.randint(10, 128), 1, 128, *c, 0, 0, s * s, 0, t * t, 1))
        L.append(line('phd', c[0] - 2 * s, c[1] - 2 * t, c[0] + 2 * s, c[1] + 2 * t, 4, 4, 3))
    return L


def metric_history(rng):
    L = [line('new', 0, rng.randint(0, 4), rng.choice([-170, 7, 111]), 8)]
    for _ in range(4):
        p = rng.choice([1, 1, 2, 2, 2, 3, 4])
        c = rng.randint(5, {1: 200, 2: 200, 3: 90, 4: 40}[p])
        flat = p % 2 == 1
        groups = rng.choice([1, 1, 2, 3, 6])
        T, Q = [], []
        for g in range(groups):
            at = [(g - groups // 2) * 3 * c, 0 if flat else rng.choice([-1, 0, 1]) * 2 * c]
            R = rng.choice([c // 2 + 1, c, 2 * c])
            def pt():
                return [at[0] + rng.randint(-R, R), at[1] + (0 if flat else rng.randint(-R, R))]
            m = rng.choice([5, 4, 3, 1, 0]) if groups > 1 else rng.randint(0, 6)
            n = rng.choice([5, 4, 3, 1, 0]) if groups > 1 else rng.randint(0, 6)
            t = [pt() for _ in range(m)]
            q = [pt() for _ in range(n)]
            if t and q and rng.random() < 0.4:
                q[0] = list(t[0])
            T += t
            Q += q
        rng.shuffle(T)
        rng.shuffle(Q)
        L.append(line('metric', c, p, len(T), *[x for t in T for x in t + [0 if flat else rng.randint(0, 9)]], len(Q), *[x for q in Q for x in q]))
    return L


def geo_check(ck, gen, n, nbig):
    exe = ck.build('h_geo.cpp')
    hs = [gen(ck.rng) for _ in range(nbig if ck.thorough else n)]
    k = 32 if ck.thorough else 8
    ck.conform('GeoTrace', exe.result(), ['\n'.join(x for h in hs[i::k] for x in h) + '\n' for i in range(k)])
    ck.notes['geographic_histories'] = len(hs)


def C15(ck):
    geo_check(ck, metric_history, 300, 6000)


def C16(ck):
    geo_check(ck, phd_history, 400, 6000)


# ---------------------------------------------------------------------------
# C19, C20: threads
def par_history(rng):
    real = rng.random() < 0.3
    L = [line('new', int(real), rng.choice([10, 51, 51, 150]))]
    groups = rng.randint(2, 7)
    for k in range(groups):
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            L.append(line('target', rng.randint(2, 128), 200 * k + rng.randint(-4, 4), rng.randint(-4, 4), rng.randint(1, 5)))
    def pace():
        return [rng.choice([2, 3, 4, 8, 8]), rng.choice([0, 100, 300, 300, 600])]
    for s in range(rng.randint(1, 3)):
        if rng.random() < 0.6:
            L.append(line('predict', *pace(), rng.choice([0, 1, -1]), rng.choice([128, 128, 100, 64])))
        used, reps = set(), []
        for k in range(groups):
            for _ in range(rng.choice([0, 1, 1, 2])):
                p = (200 * k + rng.randint(-6, 6), rng.randint(-6, 6))
                if p not in used:
                    used.add(p)
                    reps += [p[0], p[1], rng.randint(1, 4)]
        L.append(line('scan', *pace(), rng.choice([0, 0, 1]), rng.choice([0, 0, 0, 1, 2]), rng.choice([0, 4, 16, 40]) if s == 0 else rng.choice([0, 4]), len(reps) // 3, *reps))
    return L


def race_history(rng):
    L = [line('new', 0, rng.choice([1, 1, 4, 16, 64]))]
    dx = rng.choice([0, 1, 1, -2, 3])
    for _ in range(rng.choice([1, 3, 5, 8, 12])):
        L.append(line('target', rng.choice([128, rng.randint(1, 128), 64, 2, 8]), rng.randint(-30, 30), 0, rng.randint(1, 4)))
    regions = [-1000, -1000, 1000, 1000]
    for _ in range(3):
        a, b = sorted(rng.sample(range(-40, 40), 2))
        regions += [a, -rng.randint(0, 2), b, rng.randint(0, 2)]
    L.append(line('race', rng.choice([1, 1, 2]), rng.choice([1, 2, 4]), rng.randint(4, 12), rng.choice([0, 50, 150, 400]), 40, dx, *regions))
    return L


def C19(ck):
    exe = ck.build('h_par.cpp')
    hs = [par_history(ck.rng) for _ in range(2500 if ck.thorough else 500)]
    hs += [race_history(ck.rng) for _ in range(300 if ck.thorough else 60)]
    for name in ('G3', 'G4'):
        ck.model('ParallelCorrect', 'SPECIFICATION Spec\nCONSTANTS Groups <- %s\nOf <- Of%s\nGone <- Gone%s\nBorn <- Born%s\nINVARIANTS NoRace Outcome Within\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n' % ((name,) + (name[1],) * 3), 'groups and births under the lock, ' + name)
    par_conform(ck, exe, hs)


def C20(ck):
    exe = ck.build('h_par.cpp')
    hs = [race_history(ck.rng) for _ in range(4000 if ck.thorough else 700)]
    ck.model('AtomicPredict', 'SPECIFICATION Spec\nCONSTANTS Writers = {"w"%s}\nReaders = {"r", "q"}\nSteps = 2\nPre <- P3\nDx = 1\nLim = 8192\nRegion <- R3\nINVARIANTS OneGeneration Rest\nCHECK_DEADLOCK FALSE\n' % (', "v"'), 'predictions and queries under the lock')
    par_conform(ck, exe, hs)
    # the same from Python's threads
    def record(script):
        a, z = ck.drive(script, omp=4), ck.fresh('ndjson')
        with open(z, 'w') as f:
            f.writelines(x for x in open(a) if x.strip() and json.loads(x)['e'] in ('race', 'pb', 'pe', 'qb', 'qe', 'rest', 'crash'))
        return z
    ck.pymodule().result()
    ps = ['\n'.join(x for _ in range(3) for x in py_race(ck.rng)) + '\n' for _ in range(80 if ck.thorough else 8)]
    ck.conform('ParTrace', None, ps, record=record, what='lmb module')
    ck.notes['python_races'] = 3 * len(ps)


def py_race(rng):
    L = [line('make', 'Params', 'p'), line('set', 'p', 'r_lim', 0.75 * 2.0 ** -rng.randint(3, 9)), line('tracker', 'p'), line('make', 'PositionSensor', 's'),
         line('set', 's', 'fov', 40, 40, 20, 20, 30, 10, 10, 30), line('set', 's', 'lambdaB', 1000000), line('set', 's', 'pD', 0)]
    n = rng.choice([30, 80])
    for k in range(rng.choice([1, 2, 3])):
        L.append(line('set', 'live', 'rB_max', 2.0 ** -rng.randint(1, 4)))
        L.append(line('scan', 's', 0, n, *[x for i in range(n) for x in (200 * i, 300 * k, 4, 0, 4)]))
    L.append(line('race', rng.randint(4, 10), rng.choice([1, 2, 3]), 60))
    return L


def par_conform(ck, exe, hs):
    k = 40 if ck.thorough else 8
    ck.conform('ParTrace', exe.result(), ['\n'.join(x for h in hs[i::k] for x in h) + '\n' for i in range(k)], env={'OMP_NUM_THREADS': '8'}, timeout=1500 if ck.thorough else 300)
    ck.notes['parallel_histories'] = len(hs)
    ck.assumptions.append('interleavings are those that random delays inside the shared structures, densities and models bring about; the design model covers all of them')


# ---------------------------------------------------------------------------
# C23: the Python module
def py_history(rng):
    L = []
    num = lambda: rng.choice([round(rng.uniform(-100, 100), 3), rng.randint(-9, 9), rng.uniform(-1, 1) * 10.0 ** rng.randint(-12, 12)])
    pos = lambda: round(rng.uniform(0.01, 0.99), 4)
    diag = lambda n, hi: [rng.randint(1, hi) if i % (n + 1) == 0 else 0 for i in range(n * n)]
    anyM = lambda n: [num() for _ in range(n * n)]
    add = lambda *w: L.append(line(*w))
    # plain values, through every constructor and attribute
    add('make', 'Params', 'p0')
    for a in ('w_lim', 'r_lim', 'nhyp_max', 'rB_max', 'nstd', 'cw_lim', 'cov_lim', 'tscale'):
        if rng.random() < 0.6:
            add('set', 'p0', a, num())
    add('make', 'NM', 'n0', *rng.choice([[], [num()] + anyM(4)]))
    add('make', 'CV', 'c0', *rng.choice([[], [num()], [num(), num()]]))
    add('make', 'PositionSensor', 's0')
    add('make', 'BBox', rng.choice(['raw0']))
    add('make', 'BBox', 'b4', *[num() for _ in range(4)])
    add('make', 'BBox', 'b8', *[num() for _ in range(8)])
    add('make', 'AABBox', 'a0', *[num() for _ in range(4)])
    add('make', 'AABBox', 'raw1')
    add('make', 'Gaussian', 'g', *[num() for _ in range(4)] + anyM(4) + rng.choice([[], [num()]]))
    add('make', 'GaussianReport', 'r0', *[num() for _ in range(2)] + anyM(2) + rng.choice([[], [num()]]))
    sets = [('n0', 'pS', 1), ('n0', 'Q', 16), ('c0', 'pS', 1), ('c0', 'q', 1), ('s0', 'lambdaB', 1), ('s0', 'pD', 1), ('s0', 'pv', 4), ('s0', 'kappa', 1),
            ('s0', 'fov', 8), ('b4', 'corners', 8), ('a0', 'min', 2), ('a0', 'max', 2), ('g', 'w', 1), ('g', 'm', 4), ('g', 'P', 16), ('r0', 'x', 2),
            ('r0', 'P', 4), ('r0', 'kappa', 1)]
    rng.shuffle(sets)
    for o, a, n in sets[:rng.randint(6, 18)]:
        off = {'min': -3e12, 'max': 3e12}.get(a, 0)      # a box's corners stay in order
        add('set', o, a, *[num() + off for _ in range(n)])
    add('make', 'SensorReport', 'r1', num(), num(), *anyM(2), 's0', *rng.choice([[], ['kw']]))
    # frames
    la, lo = rng.randint(-60, 60), rng.choice([-150, -20, 7, 111])
    add('make', 'AABBox', 'a2', la + 0.01, lo - 0.02, la + 0.03, lo + 0.05)
    add('make', 'BBox', 'b2', *[la + rng.uniform(-0.05, 0.05) for _ in range(4)], *[lo + rng.uniform(-0.05, 0.05) for _ in range(4)])
    add('boxes', rng.choice(['a2', 'b2']), la, lo)
    s, t = rng.randint(1, 20), rng.randint(1, 20)
    add('gauss', la, lo, s * s, round(0.5 * s * t), round(0.5 * s * t), t * t, rng.choice([0.5, 1, 1.5, 3]), la + 0.01, lo - 0.01)
    add('cf', la, lo, la + rng.uniform(-0.2, 0.2), lo + rng.uniform(-0.2, 0.2), rng.randint(0, 900), rng.randint(0, 900))
    # a tracker
    add('make', 'Params', 'p')
    # equally likely hypotheses are cut in any order, so few are only wanted where none are equal
    few = rng.random() < 0.4
    caps = [1, 2, 3] if few else [400, 500, 1000]
    if not few:
        add('set', 'p', 'nhyp_max', 900)
    for a, v in (('w_lim', 10.0 ** -rng.randint(2, 8)), ('r_lim', rng.choice([0.0123, 0.001, 0.1])), ('nhyp_max', rng.choice(caps)), ('rB_max', pos()),
                 ('nstd', rng.choice([1.5, 2, 3])), ('cw_lim', rng.choice([0.001, 0.01])), ('cov_lim', num()), ('tscale', rng.choice([1, 2, 0.5]))):
        if rng.random() < 0.6:
            add('set', 'p', a, v)
    add('make', 'PositionSensor', 's')
    add('set', 's', 'fov', 40, 40, 20, 20, 30, 10, 10, 30)
    add('set', 's', 'lambdaB', rng.choice([1, 2, 5, 10]))
    add('set', 's', 'pD', pos())
    add('set', 's', 'kappa', rng.choice([0.5, 0.01, 1e-3, 1e-5]))
    add('set', 's', 'pv', rng.randint(1, 9), 0, 0, rng.randint(1, 9))
    add('make', 'NM', 'n', *rng.choice([[], [pos()] + [x * 1.0 for x in diag(4, 4)]]))
    add('make', 'CV', 'c', *rng.choice([[], [pos()], [pos(), rng.randint(0, 3)]]))
    add('tracker', *rng.choice([['p'], ['p'], ['p'], [] if few else ['p']]))
    sites = [(i * 2000, j * 2000) for i in range(-2, 3) for j in range(-2, 3)]
    sites = rng.sample(sites, rng.randint(1, 5))
    t = 0
    for k in range(rng.randint(1, 4)):
        if k:
            d = rng.choice([1, 1, 2])
            add('predict', rng.choice(['n', 'c']), t + d, t)
            t += d
        if rng.random() < 0.3:
            add('set', 'live', rng.choice(['rB_max', 'r_lim']), rng.choice([0.0321, 0.5123, 0.91]))
        if rng.random() < 0.2:
            add('set', 's', 'pD', pos())
        if rng.random() < 0.2:
            add('set', 'live', 'nhyp_max', rng.choice(caps))
        z = []
        for a, b in sites:
            for _ in range(rng.choice([0, 1, 1, 1, 1 if few or not k else 2])):
                q = rng.randint(1, 3)
                z += [a + rng.randint(-6, 6), b + rng.randint(-6, 6), q * q, rng.choice([0, 0, 0.5]), rng.randint(1, 9)]
        add('scan', 's', t, len(z) // 5, *z, *rng.choice([[], ['app']]))
        if rng.random() < 0.7:
            boxes = []
            for _ in range(rng.randint(1, 3)):
                c = rng.choice(sites)
                w = rng.choice([5, 20, 1000, 9000])
                boxes += [c[0] - rng.choice([0, w]), c[1] - w, c[0] + w, c[1] + rng.choice([0, w]) + 1]
            lims = [rng.choice([0.0001, 0.123457, 0.51234, 0.7, 0.9321]) for _ in range(rng.randint(1, 3))]
            truth = [x for c in rng.sample(sites, rng.randint(0, len(sites))) for x in (c[0] + rng.randint(-20, 20), c[1] + rng.randint(-20, 20))]
            nx, ny = rng.choice([(5, 5), (1, 1), (5, 1)])
            add('queries', len(boxes) // 4, len(lims), len(truth) // 2, *boxes, *lims, *truth, rng.choice([5, 20, 100]), rng.choice([1, 2, 2, 3]), -5000, -5000, 5000, 5000, nx, ny)
    add('pickles')
    return L


def C23(ck):
    exe, pk = ck.build('h_py.cpp'), ck.pymodule()
    exe.result(), pk.result()
    def record(script):
        a, b = ck.drive(script), ck.run(exe.result(), script, env={'OMP_NUM_THREADS': '1'})
        A, B = ([json.loads(x) for x in open(p) if x.strip()] for p in (a, b))
        while len(A) != len(B):
            (A if len(A) < len(B) else B).append({'e': 'missing'})
        z = ck.fresh('ndjson')
        with open(z, 'w') as f:
            for p, c in zip(A, B):
                f.write(json.dumps({'e': p['e'] if p['e'] == c['e'] else 'differ', 'py': p, 'cc': c}) + '\n')
        return z
    hs = [py_history(ck.rng) for _ in range(640 if ck.thorough else 96)]
    k = 32 if ck.thorough else 8
    ck.conform('PyTrace', exe.result(), ['\n'.join(x for h in hs[i::k] for x in h) + '\n' for i in range(k)], record=record)
    ck.notes['python_histories'] = len(hs)
    ck.assumptions.append('the module is compiled from lmb/*.cpp with clang against the installed Python and pybind11, not with the tup build')


# ---------------------------------------------------------------------------
# C24: coordinate conversions
def earth_line(rng):
    la = rng.choice([rng.randint(-90000000, 90000000)] * 3 + [rng.randint(-90, 90) * 1000000, rng.choice([-1, 1]) * rng.randint(56000000, 58000000),
                    rng.choice([-90000000, 90000000, 0, 89999999, -89999999, 89990000, 1, -1, 45000000, -45000000, 89000000])])
    lo = rng.choice([rng.randint(-180000000, 180000000)] * 3 + [rng.randint(-180, 180) * 1000000, rng.choice([0, 90, -90, 180, -180, 135, -135]) * 1000000,
                    rng.choice([179999999, -179999999, 1, -1])])
    h = rng.choice([0, 0, rng.randint(-10000000, 100000000), rng.randint(-1000, 1000), 2000000000])
    if rng.random() < 0.5:
        return line('at', la, lo, h)
    far = rng.choice([0, 1, 1000, 100000, 3000000, 3000000, 3000000, 20000000, 500000000])
    d = [rng.randint(-far, far) for _ in range(2)]
    if rng.random() < 0.2:
        d[rng.randint(0, 1)] = 0
    return line('by', la, lo, min(h, 100000000), *d, rng.choice([0, rng.randint(-min(far, 100000000), min(far, 10000000))]))


def C24(ck):
    exe = ck.build('h_cf.cpp')
    L = [earth_line(ck.rng) for _ in range(24000 if ck.thorough else 1600)]
    step = 5 if ck.thorough else 15
    ck.model('EarthGrid', 'INIT Init\nNEXT Next\nCONSTANT Step = %d\nINVARIANTS Circle Exact Ellipsoid Rotation Steps\nCHECK_DEADLOCK FALSE\n' % step, 'the specified earth, every %d degrees' % step, workers=8)
    ck.conform('EarthTrace', exe.result(), chunks(L, 32 if ck.thorough else 8))
    ck.notes['places'] = len(L)
    ck.assumptions.append('WGS 84; points from 10 km below to 2000 km above the ellipsoid')


# ---------------------------------------------------------------------------
# C25: random draws
def rand_line(rng, N):
    o = rng.random()
    if o < 0.6:
        S = rng.choice([2, 4])
        how = rng.choice([0, 1, 2, 3, 4 if S == 2 else 0])
        k = rng.choice([1, 1, 3, 30])
        shape = rng.choice(['full', 'full', 'full', 'rank', 'diag', 'zero'])
        A = [[rng.randint(-9, 9) * k for _ in range(S)] for _ in range(S)]
        if shape == 'rank':
            A = [r[:1] + [0] * (S - 1) for r in A]
        if shape == 'diag':
            A = [[A[i][i] if i == j else 0 for j in range(S)] for i in range(S)]
        P = [[sum(A[i][t] * A[j][t] for t in range(S)) for j in range(S)] for i in range(S)]
        if shape == 'zero':
            P = [[0] * S for _ in range(S)]
        return line('gauss%d' % S, how, N + rng.randint(0, 1), *[rng.randint(-99, 99) for _ in range(S)], *[P[i][j] for i in range(S) for j in range(i + 1)], *[rng.randint(-3, 3) for _ in range(S)])
    if o < 0.65:
        return line(rng.choice(['unit', 'normal']), 50 * N)
    if o < 0.7:
        return line('streams', N, rng.randint(2, 6))
    if o < 0.85:
        K = rng.randint(1, 5)
        return line('mix', rng.randint(0, 1), rng.choice([1, 7, 100, 1000]), K, *(dyadic(rng, K) if K > 1 else [128]))
    s = rng.randint(1, 50)
    round_ = rng.random() < 0.6
    a, b = sorted(rng.sample([-20] + list(range(-8, 9)) + [20], 2)), sorted(rng.sample([-20] + list(range(-8, 9)) + [20], 2))
    th = rng.randint(0, 359) if round_ else 0
    return line('share', rng.choice([0, 2] if th % 90 else [0, 1, 2, 3]), max(4, N // 1000), s, s if round_ else rng.randint(1, 50), th, a[0], a[1], b[0], b[1])


def C25(ck):
    exe = ck.build('h_rand.cpp')
    L = [rand_line(ck.rng, 100000 if ck.thorough else 20000) for _ in range(6000 if ck.thorough else 800)]
    ck.conform('SampleTrace', exe.result(), chunks(L, 32 if ck.thorough else 8), timeout=1500 if ck.thorough else 300)
    ck.notes['draws_of'] = len(L)
    ck.assumptions.append('a sum is accepted within seven standard errors; the generator is the C++ library\'s, seeded at random')


# ---------------------------------------------------------------------------
# C27: what is printed
def limbs(text, n=5):
    """The decimal number in fixed point, as the harnesses write it."""
    d = decimal.Context(prec=60).create_decimal(text)
    if not d.is_finite():
        raise ValueError(text)
    m = int(abs(d).scaleb(4 * n).to_integral_value(decimal.ROUND_HALF_UP))
    L = []
    while m:
        m, r = divmod(m, 10000)
        L.append(r)
    return {'n': bool(d < 0 and L), 'm': L}


def read_json(text):
    def unique(pairs):
        if len({k for k, _ in pairs}) != len(pairs):
            raise ValueError('a field twice')
        return dict(pairs)
    def no(c):
        raise ValueError(c)
    return json.loads(text, parse_float=limbs, parse_int=limbs, parse_constant=no, object_pairs_hook=unique)


def C27(ck):
    exe = ck.build('h_print.cpp')
    rng = ck.rng
    L = ['%s %d' % (rng.choice(['parts', 'whole', 'whole']), rng.randrange(1 << 31)) for _ in range(16000 if ck.thorough else 1000)]
    def record(script):
        tr = ck.run(exe.result(), script)
        out = []
        for x in open(tr):
            ev = {'e': 'garbled'}
            try:
                ev = json.loads(x)
                if 'text' in ev:
                    ev['txt'] = read_json(ev['text'])
            except ValueError:
                ev['e'] = 'garbled'
            out.append(json.dumps(ev) + '\n')
        with open(tr, 'w') as f:
            f.writelines(out)
        return tr
    ck.conform('PrintTrace', None, chunks(L, 32 if ck.thorough else 8), record=record, what='h_print')
    ck.notes['scenes'] = len(L)


# ---------------------------------------------------------------------------
# C28: plots
def C28(ck):
    rng = ck.rng
    k = 32 if ck.thorough else 8
    L = ['%s %d' % (rng.choice(['scene'] * 6 + ['whole'] * 2 + ['trace'] * 3 + ['stats', 'app']), rng.randrange(1 << 31)) for _ in range(8000 if ck.thorough else 600)]
    ck.pymodule().result()
    ck.conform('PlotTrace', None, chunks(L, k), record=lambda script: ck.drive(script, name='plots.py', timeout=600), what='plots.py')
    ck.notes['scenes'] = len(L)
    ck.assumptions.append('the artists on the axes are judged, with the installed matplotlib, not the pixels it makes of them')
