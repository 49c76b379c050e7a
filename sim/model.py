"""
Small executable reference models of the numerical tools: growth of ice and flight of drops.

They are written from the requirements in the sources (FR.RM.MT.TN.01-08, drag law of a sphere) on plain
lists, without objects of the grid.  Each model is run twice, on the given data and on slightly disturbed data:
the distance between both runs tells how far rounding may take the real result (and where a decision of the
algorithm is so close that both ways are right, no result is demanded).
"""

import math
import random


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def add(a, b):
    return (a[0] + b[0], a[1] + b[1], a[2] + b[2])


def mul(a, k):
    return (a[0] * k, a[1] * k, a[2] * k)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def norm(a):
    return math.sqrt(dot(a, a))


def unit(a):
    return mul(a, 1.0 / norm(a))


class Refused(Exception):
    """The tool must refuse this input."""


DEFAULTS = {'nsteps_min': 0, 'nsteps_max': 10, 'nsteps_hi_side_fact': 0.1, 'nsteps_ignore_part': 0.05,
            'nsmooth_steps': 0, 'nsmooth_s': 10.0, 'nsmooth_k': 0.15,
            'hsmooth_steps': 0, 'hsmooth_alfa': 0.2, 'hsmooth_beta': 0.1, 'rest_volume_redistr': True}


# -- ice -------------------------------------------------------------------------------------------


def weld(g):
    """Points of the whole surface, triangles over them, place of each node of each zone."""
    pts, tris, where, idx = [], [], [], {}
    for z in g['zones']:
        m = []
        for p in z['nodes']:
            p = tuple(p)
            if p not in idx:
                idx[p] = len(pts)
                pts.append(p)
            m.append(idx[p])
        where.append(m)
        tris += [tuple(m[v] for v in t) for t in z['faces']]
    return pts, tris, where


def grow(pts, tris, ice, opt):
    """New points of the surface after growing the given heights of ice."""
    o = dict(DEFAULTS, **opt)
    if o['nsteps_min'] > o['nsteps_max']:
        raise Refused('steps')
    pts = list(pts)
    at = [[] for _ in pts]
    pairs = {}
    for k, t in enumerate(tris):
        for i in range(3):
            at[t[i]].append(k)
            pairs.setdefault(frozenset((t[i], t[i - 1])), []).append(k)
    inner = [v for v in pairs.values() if len(v) == 2]

    def normal(k):
        a, b, c = (pts[v] for v in tris[k])
        return cross(sub(b, a), sub(c, b))

    def area(k):
        return 0.5 * norm(normal(k))

    n = range(len(tris))
    rest = [area(k) * ice[k] for k in n]
    # Number of steps: the thickest layer of one step against the least side.
    need = []
    for k in n:
        a, b, c = (pts[v] for v in tris[k])
        need.append(int(ice[k] / (min(math.dist(a, b), math.dist(b, c), math.dist(c, a)) * o['nsteps_hi_side_fact'])) + 1)
    need.sort(reverse=True)
    skip = int(len(need) * o['nsteps_ignore_part'])
    steps = o['nsteps_max']
    if need[skip] <= steps:
        fit = [x for x in need[:skip] if x <= steps]
        if fit:
            steps = fit[0]
    steps = max(steps, o['nsteps_min'])

    for step in range(steps):
        chunk = [x / (steps - step) for x in rest]
        fdir = [unit(normal(k)) for k in n]
        ndir = []
        for f in at:
            s = (0.0, 0.0, 0.0)
            for k in f:
                s = add(s, fdir[k])
            ndir.append(unit(s) if f else s)
        for _ in range(o['nsmooth_steps']):
            for k in n:
                ws = [max(o['nsmooth_s'] * (1.0 - dot(fdir[k], ndir[v])), o['nsmooth_k']) for v in tris[k]]
                s = (0.0, 0.0, 0.0)
                for v, w in zip(tris[k], ws):
                    s = add(s, mul(ndir[v], w))
                fdir[k] = mul(s, 1.0 / sum(ws))
            for v, f in enumerate(at):
                ws = [1.0 / area(k) for k in f]
                s = (0.0, 0.0, 0.0)
                for k, w in zip(f, ws):
                    s = add(s, mul(fdir[k], w))
                ndir[v] = mul(s, 1.0 / sum(ws))

        def shifts():
            r = []
            for k in n:
                h = chunk[k] / area(k)
                if chunk[k] > 1e-10:
                    p, u = [pts[v] for v in tris[k]], []
                    nn = unit(normal(k))
                    for v in tris[k]:
                        u.append(mul(ndir[v], 1.0 / dot(nn, ndir[v])))
                    p1, p2, u1, u2 = sub(p[1], p[0]), sub(p[2], p[0]), sub(u[1], u[0]), sub(u[2], u[0])
                    a = 0.5 * norm(cross(p1, p2))
                    b = 0.25 * dot(add(cross(p1, u2), cross(u1, p2)), nn)
                    if abs(b) > 1e-10 and a * a + 4.0 * b * chunk[k] >= 0.0:
                        d = math.sqrt(a * a + 4.0 * b * chunk[k])
                        ok = [x for x in ((-a + d) / (2.0 * b), (-a - d) / (2.0 * b)) if x >= 0.0]
                        if ok:
                            h = min(ok)
                r.append(h)
            ns = []
            for f in at:
                ns.append(math.fsum(r[k] for k in f) / len(f) if f else 0.0)
                if ns[-1] < 0.0:
                    raise Refused('negative shift')
            return r, ns

        fs, ns = shifts()
        for _ in range(o['hsmooth_steps']):
            top = max(fs)
            new = list(chunk)
            for e in inner:
                a, b = e if fs[e[0]] >= fs[e[1]] else e[::-1]
                mid = chunk[a] / fs[a] if fs[a] != 0.0 else area(a)
                v = min(fs[a] - fs[b], o['hsmooth_alfa'] * top) * mid
                new[a] -= o['hsmooth_beta'] * v
                new[b] += o['hsmooth_beta'] * v
            chunk = new
            fs, ns = shifts()
        move = [mul(d, s) for d, s in zip(ndir, ns)]
        if o['rest_volume_redistr']:
            for k in n:
                a, b, c = (pts[v] for v in tris[k])
                na, nb, nc = (add(pts[v], move[v]) for v in tris[k])
                v = 0.0
                for q in ((a, b, c, nc), (a, b, nb, nc), (a, na, nb, nc)):
                    v += abs(dot(sub(q[0], q[3]), cross(sub(q[1], q[3]), sub(q[2], q[3])))) / 6.0
                rest[k] = max(rest[k] - v, 0.0)
        pts = [add(p, m) for p, m in zip(pts, move)]
    return pts


def accreted(g, opt, hi='Hi'):
    """Nodes of every zone after growing the ice of the grid, and the tolerance of each; None - not determined."""
    pts, tris, where = weld(g)
    col = g['vars'].index(hi)
    ice = [d[col] for z in g['zones'] for d in z['data']]
    rng = random.Random(len(pts))
    eps = 1e-13
    size = max([abs(x) for p in pts for x in p] + [1e-3])
    try:
        a = grow(pts, tris, ice, opt)
        bs = [grow([tuple(x + size * eps * rng.uniform(-1, 1) for x in p) for p in pts], tris,
                   [h * (1.0 + eps * rng.choice((-1, 1))) for h in ice], opt) for _ in range(2)]
    except (ZeroDivisionError, ValueError, OverflowError):
        return None
    tol = 1e-9 * size + 3000.0 * max(math.dist(p, q) for b in bs for p, q in zip(a, b))
    if not tol < 1e-3 * size:
        return None
    return [[a[v] for v in m] for m in where], tol


# -- drops -----------------------------------------------------------------------------------------


def flight(p, v, d, dt, air, most):
    """Points of a drop in the air up to the end (not regarding the surface), and how sure each is."""
    lo = [min(q[0][c] for q in air) for c in range(3)]
    hi = [max(q[0][c] for q in air) for c in range(3)]
    path, why = [p], None
    while True:
        size = 1.0 + max(abs(x) for x in p)
        if not all(math.isfinite(x) for x in p + v) or size > 1e100:
            return path, 'unclear'
        if len(path) > most:
            return path, 'N'
        gap = min(min(p[c] - lo[c], hi[c] - p[c]) for c in range(3))
        if abs(gap) < 1e-7 * size:
            return path, 'unclear'
        if gap < 0.0:
            return path, 'O'
        ds = sorted((math.dist(p, q), i) for i, (q, _) in enumerate(air))
        if len(ds) > 1 and ds[1][0] - ds[0][0] < 1e-7 * size and air[ds[0][1]][1] != air[ds[1][1]][1]:
            return path, 'unclear'
        wind = air[ds[0][1]][1]
        rel = sub(v, wind)
        s = norm(rel)
        re = s * d / 1.736e-5
        if re < 1e-9 or abs(re - 350.0) < 1e-6:
            return path, 'unclear'
        cd = 24.0 / re * (1.0 + 0.166 * re ** 0.33) if re < 350.0 else 0.178 * re ** 0.217
        acc = mul(rel, -0.75 * cd * 1.292 / (d * 1000.0) * s)
        q = add(p, mul(v, dt))
        v = add(v, mul(acc, dt))
        m = math.dist(p, q)
        if abs(m - 1e-15) < 1e-15:
            return path, 'unclear'
        if m < 1e-15:
            return path, 'S'
        p = q
        path.append(p)
    return path, why


def drop(p, v, d, dt, air, most):
    """Points, tolerances and the kind of the end of a trajectory."""
    rng = random.Random(most)
    path, why = flight(p, v, d, dt, air, most)
    alt, _ = flight(tuple(x + 1e-13 * (1 + abs(x)) * rng.choice((-1, 1)) for x in p),
                    tuple(x + 1e-13 * (1 + abs(x)) * rng.choice((-1, 1)) for x in v), d, dt, air, most)
    r = []
    for a, b in zip(path, alt):
        size = 1.0 + max(abs(x) for x in a)
        t = 1e-9 * size + 3000.0 * math.dist(a, b)
        if t > 1e-4 * size:
            return r, 'unclear'
        r.append((a, t))
    if len(r) < len(path):
        why = 'unclear'
    return r, why
