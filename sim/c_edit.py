"""
C15: histories of local grid transformations with checkpoints, restarts and disk faults.
"""

import math
import os
import random

from . import core, grids, tools, world
from .c_grid import FAILING, BENIGN, REAL, STUBS, Session, check_report, grid_ok, small_faults
from .core import Violation
from .runner import Check

EDITS = ['divide', 'divide', 'flip', 'flip', 'cut', 'cut', 'collapse', 'collapse', 'single', 'two']


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def dist(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


def canon(t):
    """Oriented triangle up to rotation."""
    k = t.index(min(t))
    return t[k:] + t[:k]


class Model:
    """Surface as a set of oriented triangles with zone and values."""

    def __init__(self, h):
        self.title, self.vars = h['title'], h['vars']
        self.zones = [z['name'] for z in h['zones']]
        self.gone = []              # places of removed nodes
        self.faces = []             # [zone index, oriented triangle, set of admissible values]
        for k, z in enumerate(h['zones']):
            for t, d in zip(z['faces'], z['data']):
                self.faces.append((k, canon(tuple(tuple(z['nodes'][v]) for v in t)), (tuple(d),)))

    def by_edge(self):
        r = {}
        for f in self.faces:
            for q in range(3):
                r.setdefault(frozenset((f[1][q], f[1][(q + 1) % 3])), []).append(f)
        return r

    def find(self, t):
        t = canon(t)
        m = [f for f in self.faces if f[1] == t]
        return m[0] if len(m) == 1 else None

    def replace(self, old, new):
        for f in old:
            self.faces.remove(f)
        self.faces += [(z, canon(t), d) for z, t, d in new]

    def save(self):
        return list(self.faces), list(self.zones)

    def restore(self, saved):
        self.faces, self.zones = list(saved[0]), list(saved[1])
        self.gone = []

    def nodes(self):
        return {p for _, t, _ in self.faces for p in t}

    def ring(self, p):
        return {q for _, t, _ in self.faces if p in t for q in t} - {p}

    def compare(self, h):
        if h['title'] != self.title or h['vars'] != self.vars:
            return 'header %r %r instead of %r %r' % (h['title'], h['vars'], self.title, self.vars)
        if [z['name'] for z in h['zones']] != self.zones:
            return 'zones %r instead of %r' % ([z['name'] for z in h['zones']], self.zones)
        left = {}
        for z, t, d in self.faces:
            left.setdefault((z, t), []).append(d)
        n = 0
        for k, z in enumerate(h['zones']):
            if len(set(map(tuple, z['nodes']))) != len(z['nodes']):
                return 'zone %r has duplicate nodes' % z['name']
            if len({v for t in z['faces'] for v in t}) != len(z['nodes']):
                return 'zone %r has unused nodes' % z['name']
            for t, d in zip(z['faces'], z['data']):
                c = canon(tuple(tuple(z['nodes'][v]) for v in t))
                m = left.get((k, c))
                if not m:
                    r = (c[0], c[2], c[1])
                    why = 'is not expected'
                    if left.get((k, canon(r))):
                        why = 'has the wrong orientation'
                    elif any(key[1] == c for key in left):
                        why = 'is in the wrong zone'
                    return 'face %r of zone %r %s' % (c, z['name'], why)
                for x in m:
                    if tuple(d) in x:
                        m.remove(x)
                        break
                else:
                    return 'face %r has values %r, expected %r' % (c, tuple(d), m[0])
                if not m:
                    del left[(k, c)]
                n += 1
        if left:
            return '%d of %d faces are stored, %r is missing' % (n, len(self.faces), sorted(left)[0])
        return None

    def counts(self):
        return {'nodes': len(self.nodes()), 'edges': len(self.by_edge()), 'faces': len(self.faces),
                'zones': len(self.zones)}


class C15(Check):
    ID = 'C15'
    RUNS = {'quick': 18000, 'thorough': 400000}
    WALL = {'quick': 110, 'thorough': 1500}
    RULE = 'distinct histories: sequences of (transformation, border or inner, one or several zones, faults, outcome)'
    REAL = REAL
    STUBS = STUBS
    ASSUMPTIONS = ['new points are not closer than 1e-9 to existing nodes; an edge is collapsed only where the surface '
                   'stays a manifold (link condition), a pair of faces is turned only if the new edge does not exist',
                   'after turning a pair of faces each new face has the values of one of the two']

    def gen(self, rng, i, tier):
        sp = grids.spec(rng, 2, 20 if tier == 'quick' else 50, big=0.01)
        ops = []
        for _ in range(rng.choice([1, 3, 6, 10, 16])):
            if rng.random() < 0.8:
                ops.append({'op': rng.choice(EDITS), 'at': rng.randrange(1 << 20), 't': rng.randrange(1, 1000),
                            'u': rng.randrange(1, 1000), 'touch': rng.randrange(16)})
            else:
                o = {'op': rng.choice(['store', 'restart', 'mpi', 'store', 'calc', 'decomp']), 'at': rng.randrange(1 << 20)}
                if o['op'] == 'store' and rng.random() < 0.5:
                    o['faults'] = small_faults(rng, rng.choice([FAILING, BENIGN, ['kill']]))
                ops.append(o)
        return {'grid': sp, 'ops': ops}

    def valid(self, scn):
        return grid_ok(scn['grid'])

    def run(self, scn, ctx):
        s = Session(scn, ctx)
        g0 = grids.build(scn['grid'])
        tools.put(s.root, 'ck.dat', grids.dat_text(g0))
        st = {'i': 0, 'model': Model(grids.parse_dat(text=grids.dat_text(g0))), 'latest': 'ck.dat',
              'saved': None, 'n': 0}
        st['saved'] = st['model'].save()
        sig = []
        ops = scn['ops']

        def life():
            import gsu
            g = gsu.Grid()
            g.load(s.path(st['latest']))
            m = st['model']
            m.restore(st['saved'])
            self.verify(s, g, m, 'load', sig)
            while st['i'] < len(ops):
                o = ops[st['i']]
                st['i'] += 1
                k = o['op']
                if k == 'restart':
                    sig.append('restart')
                    return
                if k == 'store':
                    st['n'] += 1
                    rel = 'ck%d.dat' % st['n']
                    p = s.arm(o.get('faults', ()))
                    fired = dict(s.fs.fired)
                    try:
                        g.store(s.path(rel))
                        ok = True
                    except (Exception, KeyboardInterrupt) as e:
                        if not p.alive or isinstance(e, Violation):
                            raise
                        ok = False
                        core.drop_exception(e)
                    s.quiet()
                    new = sorted(q for q, v in s.fs.fired.items() if v != fired.get(q, 0))
                    if not ok and all(q in BENIGN for q in new):
                        raise Violation('store-fails', 'store fails with %r only' % new)
                    sig.append('store %s %s' % (','.join(new), ok))
                    if ok:
                        st['latest'], st['saved'] = rel, m.save()
                    self.verify(s, g, m, 'store', sig)
                elif k == 'mpi':
                    self.mpi(s, g, m)
                    sig.append('mpi')
                elif k in ('calc', 'decomp'):
                    getattr(self, k)(s, g, m, o, sig)
                    self.verify(s, g, m, sig[-1], sig)
                else:
                    self.edit(s, g, m, o, sig, ctx)
                    self.verify(s, g, m, sig[-1], sig)
            self.mpi(s, g, m)

        for n in range(len(ops) + 2):
            r, p = world.call(s.fs, 'life%d' % n, life, s.root, scn['sched_seed'] + n)
            if r.status == -9:
                sig.append('killed')
                ctx.count('crash restarts')
                continue
            if not r.ok:
                raise Violation('history-fails', '%r at operation %d %r (before: %s)'
                                % (r, st['i'] - 1, ops[max(0, st['i'] - 1)] if ops else None, '; '.join(sig[-8:])),
                                tb=r.tb)
            if st['i'] >= len(ops):
                break
        s.count_faults()
        ctx.nontrivial = True
        ctx.sigs.add('|'.join(sig))
        ctx.log += sig
        ctx.sample = {'history': sig[:14], 'grid': scn['grid']['parts']}

    def verify(self, s, g, m, what, sig):
        before = '; '.join(sig[-8:-1])
        h = s.probe(g, '%s (before: %s)' % (what, before))
        e = m.compare(h)
        if e is None:
            got = {'nodes': g.nodes_count(), 'edges': g.edges_count(), 'faces': g.faces_count(), 'zones': g.zones_count()}
            if got != m.counts():
                e = 'counts %r instead of %r' % (got, m.counts())
        if e is None:
            for name, items in (('nodes', g.Nodes), ('edges', g.Edges), ('faces', g.Faces)):
                ids = sorted(x.GloId for x in items)
                if ids != list(range(len(ids))):
                    e = 'numbers of %s are not 0..%d without repetition: %r' % (name, len(ids) - 1, ids[:12])
                    break
        if e:
            raise Violation('wrong-surface', 'after %s: %s (before: %s)' % (what, e, before))

    def mpi(self, s, g, m):
        """Files for the parallel solver show nodes, edges and borders of zones."""
        class Plain:
            pass
        h = s.probe(g, 'mpi')
        n = len(m.faces)
        ref = Plain()
        order = [None] * n
        ref.zones = []
        for z, zone in zip(h['zones'], g.Zones):
            ids = [f.GloId for f in zone.Faces]
            if len(ids) != len(z['faces']):
                raise Violation('wrong-surface', 'zone %r has %d faces, %d are stored' % (z['name'], len(ids), len(z['faces'])))
            for i, t, d in zip(ids, z['faces'], z['data']):
                order[i] = (tuple(tuple(z['nodes'][v]) for v in t), d)
            ref.zones.append((z['name'], ids))

        def plain():
            loc, nodes, faces = {}, [], []
            for t, _ in order:
                for p in t:
                    if p not in loc:
                        loc[p] = len(nodes)
                        nodes.append(p)
                faces.append(tuple(loc[p] for p in t))
            return {'title': m.title, 'vars': m.vars,
                    'zones': [{'name': 'all', 'nodes': nodes, 'faces': faces, 'data': [list(d) for _, d in order]}]}
        ref.plain = plain
        s.mpi_set(g, ref, None, 'transformations')
        ref.coords = [t for t, _ in order]
        e = check_report(g, ref)
        if e:
            raise Violation('wrong-report', 'after transformations: %s' % e)

    def calc(self, s, g, m, o, sig):
        """Values computed elsewhere come back by the identifiers of faces."""
        rng = random.Random(o['at'])
        mine = []
        for f in g.Faces:
            mf = m.find(tuple((float(n.P[0]), float(n.P[1]), float(n.P[2])) for n in f.Nodes))
            if mf is None:
                sig.append('calc: ambiguous')
                return
            mine.append((f.GloId, mf))
        rng.shuffle(mine)
        mine = mine[:rng.choice([1, len(mine), len(mine)])]
        lines, new = ['VARIABLES=' + ', '.join('"%s"' % v for v in ['GloId'] + m.vars)], []
        for i, (z, t, d) in mine:
            v = tuple(rng.choice([0.0, 0.5 + i, rng.random() * 1e-4, 250.0 + rng.random()]) for _ in m.vars)
            lines.append(' '.join([str(i)] + [repr(x) for x in v]))
            new.append((z, t, (v,)))
        tools.put(s.root, 'values.txt', '\n'.join(lines) + '\n')
        g.load_faces_calc_data(s.path('values.txt'))
        m.replace([x[1] for x in mine], new)
        sig.append('calc')

    def decomp(self, s, g, m, o, sig):
        """A new decomposition: the surface stays, zones are taken from the grid."""
        rng = random.Random(o['at'])
        kind, n = rng.choice(['mono', 'linear', 'random', 'hierarchical', 'farhat']), rng.randint(1, min(4, len(m.faces)))
        if kind == 'mono':
            g.decompose_mono()
        elif kind == 'linear':
            g.decompose_linear(n)
        elif kind == 'random':
            g.decompose_random(n)
        elif kind == 'hierarchical':
            g.decompose_hierarchical(levels=rng.choice([1, 2, 3]))
        else:
            g.decompose_farhat(n)
        sig.append('decompose ' + kind)
        h = s.probe(g, sig[-1])
        m.zones = [z['name'] for z in h['zones']]
        left, new = {}, []
        for f in m.faces:
            left.setdefault(f[1], []).append(f)
        for k, z in enumerate(h['zones']):
            for t, d in zip(z['faces'], z['data']):
                c = canon(tuple(tuple(z['nodes'][v]) for v in t))
                # (of equal triangles the one with these values)
                x = [f for f in left.get(c, []) if tuple(d) in f[2]]
                if x:
                    left[c].remove(x[0])
                    new.append((k, c, x[0][2]))
        if len(new) == len(m.faces):
            m.faces = new
        # (otherwise the comparison that follows tells what is wrong)

    def edit(self, s, g, m, o, sig, ctx):
        import geom
        k = o['op']
        es = m.by_edge()
        t, u = 0.25 + 0.5 * o['t'] / 1000.0, 0.25 + 0.5 * o['u'] / 1000.0

        def coords(n):
            return (float(n.P[0]), float(n.P[1]), float(n.P[2]))

        def vect(p):
            return geom.Vect(p[0], p[1], p[2])

        def skip(why):
            sig.append('%s: %s' % (k, why))

        def fresh(p):
            return all(dist(p, q) > 1e-7 for q in m.nodes())
        if k in ('divide', 'flip'):
            f = g.Faces[o['at'] % len(g.Faces)]
            tri = tuple(coords(n) for n in f.Nodes)
            mf = m.find(tri)
            if mf is None:
                return skip('ambiguous')
            tri = mf[1]
            if k == 'divide':
                w = (t, (1 - t) * u)
                p = tuple(a + w[0] * (b - a) * 0.9 + w[1] * (c - a) * 0.9 for a, b, c in zip(*tri))
                if m.gone and o['u'] % 3:
                    # Where a node has been before.
                    p = m.gone[o['t'] % len(m.gone)]
                p, what = self.place(m, o, p, tri)
                if not what and not fresh(p):
                    return skip('near')
                p = self.exact(vect(p))
                g.divide_face(f, vect(p))
                m.replace([mf], [(mf[0], x, mf[2]) for x in
                                 ((tri[0], tri[1], p), (tri[1], tri[2], p), (tri[2], tri[0], p))])
                sig.append('divide' + what)
                ctx.probe(sig[-1].replace(' ', '_'))
                return
            ls = sorted((dist(tri[q], tri[(q + 1) % 3]), q) for q in range(3))
            if ls[1][0] > ls[2][0] * (1 - 1e-9):
                # Equal edges: which of them is the longest is up to rounding.
                e = f.max_edge_from_face()
                q = [q for q in range(3) if {tri[q], tri[(q + 1) % 3]} == {coords(n) for n in e.Nodes}][0]
            else:
                q = ls[2][1]
            a, b, c = tri[q], tri[(q + 1) % 3], tri[(q + 2) % 3]
            fs = es[frozenset((a, b))]
            if len(fs) == 1:
                if g.collapse_face(f):
                    raise Violation('wrong-surface', 'collapse_face reports success on a border edge')
                return skip('border')
            mo = [x for x in fs if x is not mf][0]
            d = [p for p in mo[1] if p not in (a, b)][0]
            if frozenset((c, d)) in es or self.oriented(mf[1], a, b) == self.oriented(mo[1], a, b):
                return skip('impossible')
            if not g.collapse_face(f):
                raise Violation('wrong-surface', 'collapse_face refuses an inner edge')
            both = mf[2] + mo[2]
            # Zones: each of the two keeps one face.  Which face is in which zone is not promised.
            new = [(c, a, d), (d, b, c)]
            if mf[0] == mo[0]:
                m.replace([mf, mo], [(mf[0], x, both) for x in new])
            else:
                zone = {}
                for x in g.Faces:
                    zone[canon(tuple(coords(n) for n in x.Nodes))] = g.Zones.index(x.Zone)
                zs = [zone.get(canon(x)) for x in new]
                if sorted(zs, key=str) != sorted((mf[0], mo[0]), key=str):
                    raise Violation('wrong-surface', 'turned faces are in zones %r instead of %r and %r'
                                    % (zs, mf[0], mo[0]))
                m.replace([mf, mo], [(z, x, both) for z, x in zip(zs, new)])
            sig.append('flip%s' % ('' if mf[0] == mo[0] else ' across zones'))
            ctx.probe(sig[-1].replace(' ', '_'))
            return
        e = g.Edges[o['at'] % len(g.Edges)]
        a, b = [coords(n) for n in e.Nodes]
        fs = es.get(frozenset((a, b)))
        if fs is None or a == b:
            raise Violation('wrong-surface', 'edge %r - %r does not belong to the surface' % (a, b))
        if len(fs) > 2:
            return skip('not manifold')
        if len(fs) == 2 and self.oriented(fs[0][1], a, b) == self.oriented(fs[1][1], a, b):
            return skip('not oriented')
        across = len({f[0] for f in fs}) > 1
        kind = 'border' if len(fs) == 1 else 'across zones' if across else 'inner'
        if k == 'cut' or k == 'single':
            p = tuple(x + t * (y - x) for x, y in zip(a, b))
            if m.gone and o['u'] % 3 == 0:
                p = m.gone[o['t'] % len(m.gone)]
            p, what = self.place(m, o, p, {x for f in fs for x in f[1]})
            if not what and not fresh(p):
                return skip('near')
            kind += what
            p = self.exact(vect(p))
            ok = (g.cut_edge if k == 'cut' else g.cut_single_edge)(e, vect(p))
            want = len(fs) == (2 if k == 'cut' else 1)
            if bool(ok) != want:
                raise Violation('wrong-surface', '%s of an edge with %d faces returns %r' % (k, len(fs), ok))
            if want:
                m.replace(fs, [(z, x, d) for z, tr, d in fs for x in (self.put(tr, b, p), self.put(tr, a, p))])
        elif k == 'two':
            lo, hi = sorted((0.2 + 0.3 * t, 0.6 + 0.3 * u))
            p = tuple(x + lo * (y - x) for x, y in zip(a, b))
            q = tuple(x + hi * (y - x) for x, y in zip(a, b))
            around = {x for f in fs for x in f[1]}
            if o['u'] % 2:
                p, what = self.place(m, o, p, around)
            else:
                q, what = self.place(m, o, q, around)
            if not (fresh(p) or what and o['u'] % 2) or not (fresh(q) or what and not o['u'] % 2) or dist(p, q) < 1e-7:
                return skip('near')
            kind += what
            p, q = self.exact(vect(p)), self.exact(vect(q))
            if not g.cut_edge_with_two_nodes(e, vect(p), vect(q)):
                raise Violation('wrong-surface', 'cut_edge_with_two_nodes refuses an edge with %d faces' % len(fs))
            m.replace(fs, [(z, x, d) for z, tr, d in fs for x in
                           (self.put(tr, b, p), self.put(self.put(tr, a, p), b, q), self.put(tr, a, q))])
        else:
            if len(fs) == 1:
                if g.collapse_edge(e):
                    raise Violation('wrong-surface', 'collapse_edge reports success on a border edge')
                return skip('border')
            ends = [[p for p in f[1] if p not in (a, b)][0] for f in fs]
            common = m.ring(a) & m.ring(b)
            border = {p for ed, x in es.items() if len(x) == 1 for p in ed}
            mid = tuple((x + y) / 2 for x, y in zip(a, b))
            star = [f for f in m.faces if a in f[1] or b in f[1]]
            if common != set(ends) or len(set(ends)) != 2 or (a in border and b in border) or len(m.faces) <= 4 \
                    or any(frozenset((a, x)) in border_edges(es) and frozenset((b, x)) in border_edges(es) for x in ends) \
                    or not all(dist(mid, x) > 1e-7 for x in m.nodes()) or self.folds(star, a, b) \
                    or any(len(x) > 2 for x in es.values()):
                return skip('impossible')
            if not g.collapse_edge(e):
                raise Violation('wrong-surface', 'collapse_edge refuses an inner edge')
            at = [coords(n) for n in g.Nodes if dist(coords(n), mid) < 1e-9 * (1 + dist(mid, (0, 0, 0)))]
            if len(at) != 1:
                raise Violation('wrong-surface', 'collapse_edge leaves %d nodes in the middle of the edge' % len(at))
            mid = at[0]
            m.gone += [a, b]
            kind = 'across zones' if len({f[0] for f in star}) > 1 else 'inner'
            m.replace(star, [(z, self.put(self.put(tr, a, mid), b, mid), d) for z, tr, d in star
                             if not (a in tr and b in tr)])
        sig.append('%s %s' % (k, kind))
        ctx.probe(sig[-1].replace(' ', '_'))

    @staticmethod
    def place(m, o, p, around):
        """Sometimes the new point is a node of another part of the surface, which is touched there."""
        if o.get('touch', 9) > 1:
            return p, ''
        near = set(around).union(*(m.ring(x) for x in around))
        far = sorted(m.nodes() - near)
        if not far:
            return p, ''
        return far[(o['t'] * 1000 + o['u']) % len(far)], ' touching'

    @staticmethod
    def exact(v):
        return (float(v[0]), float(v[1]), float(v[2]))

    @staticmethod
    def put(tr, old, new):
        return tuple(new if p == old else p for p in tr)

    @staticmethod
    def oriented(tr, a, b):
        """Is a followed by b."""
        return tr[(tr.index(a) + 1) % 3] == b

    def folds(self, star, a, b):
        """Two faces of the star would coincide."""
        new = [frozenset('m' if p in (a, b) else p for p in tr) for _, tr, _ in star if not (a in tr and b in tr)]
        return len(set(new)) != len(new)


def border_edges(es):
    return {e for e, x in es.items() if len(x) == 1}
