"""
Independent judgement of a partition: a set of *.cry files, or a *.dat file with the zones.
"""

import os
import re

from . import fsim, grids


def zone_counts(strategy, nfixed):
    """Allowed range of the total count of zones."""
    n = int(strategy[1:])
    if strategy[0] == 'n':
        return n, n
    return (1 + nfixed, 2 ** n + nfixed) if (n > 0 or nfixed) else (1, 1)


def edge_faces(coords):
    """Faces (indices) of every edge of a surface."""
    r = {}
    for i, c in enumerate(coords):
        for k in range(3):
            r.setdefault(frozenset((c[k], c[(k + 1) % 3])), []).append(i)
    return r


def check_tree(coords, zones, levels, centers=None):
    """Zones of a hierarchical decomposition: halved at the median, at right angles to an axis, along the shortest border.

    :param zones: zones (name, faces) without the fixed ones
    :param centers: centers of faces as computed by the code (else computed here)
    :return: None or problem
    """
    if len({n for n, _ in zones}) != len(zones) or any(not re.fullmatch('h[lr]*', n) for n, _ in zones):
        return 'names of zones: %r' % [n for n, _ in zones][:9]
    leaves = {n: ids for n, ids in zones}
    faces = {}
    for n, ids in leaves.items():
        for k in range(1, len(n) + 1):
            faces.setdefault(n[:k], set()).update(ids)
    own = [tuple((a[k] + b[k] + d[k]) / 3.0 for k in range(3)) for a, b, d in coords]
    scale = max([abs(x) for c in coords for p in c for x in p])
    eps = 1e-11 * scale
    if centers is not None and any(abs(a - b) > eps for p, q in zip(own, centers) for a, b in zip(p, q)):
        return 'wrong centers of faces'
    cs = centers or own
    edges = None
    for n, ids in sorted(faces.items()):
        if not ids:
            if n != 'h':
                return 'zone %r is empty' % n
            continue
        axes = []
        for k in range(3):
            b = sorted(cs[i][k] for i in ids)[len(ids) // 2]
            near = [i for i in ids if abs(cs[i][k] - b) <= eps]
            axes.append((k, b, near))
        if n in leaves:
            # (kept whole at a level above the last one: cannot be split)
            if len(n) < levels and len(ids) > 1:
                for k, b, near in axes:
                    if any(cs[i][k] < b - eps for i in ids):
                        return 'zone %r (%d faces) has not been split' % (n, len(ids))
            if len(n) > levels:
                return 'zone %r at %d levels' % (n, levels)
            if any(x.startswith(n) and x != n for x in leaves):
                return 'zones %r and its parts' % n
            continue
        left, right = faces.get(n + 'l', set()), faces.get(n + 'r', set())
        if not left or not right or left & right:
            return 'zone %r has been split to %d and %d faces' % (n, len(left), len(right))
        fit = []
        for k, b, near in axes:
            if all(i in (left if cs[i][k] < b else right) for i in ids if abs(cs[i][k] - b) > eps):
                fit.append(k)
        if not fit:
            return 'zone %r has not been split at the median of an axis (%d and %d faces)' % (n, len(left), len(right))
        edges = edges or [fs for fs in edge_faces(coords).values() if len(fs) == 2]
        cut = sum((a in left and b in right) or (a in right and b in left) for a, b in edges)
        for k, b, near in axes:
            if (len(near) > 1 if centers is None else any(cs[i][k] != b for i in near)) or k in fit:
                continue            # (decided by rounding)
            lo = {i for i in ids if cs[i][k] < b}
            if lo:
                x = sum(a in ids and b in ids and (a in lo) != (b in lo) for a, b in edges)
                if x < cut:
                    return 'zone %r has been split by a border of %d edges instead of %d' % (n, cut, x)
    return None


def check_zones(g, parts, strategy, fixed):
    """parts : list of (title, set of global face numbers); each zone with a name from the list is fixed."""
    num, own = 0, []
    for z in g['zones']:
        if z['name'] in fixed:
            own.append((z['name'], set(range(num, num + len(z['faces'])))))
        num += len(z['faces'])
    lo, hi = zone_counts(strategy, len(own))
    if not lo <= len(parts) <= hi:
        return '%d zones instead of %d..%d' % (len(parts), lo, hi)
    n = sum(len(z['faces']) for z in g['zones'])
    seen = {}
    for i, (t, s) in enumerate(parts):
        for f in s:
            if f in seen:
                return 'face %d is in zones %d and %d' % (f, seen[f], i)
            seen[f] = i
    if sorted(seen) != list(range(n)):
        return 'faces %r are in no zone' % sorted(set(range(n)) - set(seen))[:5]
    left = [p for p in parts]
    for f, faces in own:
        m = [p for p in left if p[0] == f and p[1] == faces]
        if not m:
            return 'fixed zone %r is absent or does not have its own faces' % f
        left.remove(m[0])
    for p in left:
        if p[0] in fixed:
            return 'fixed zone %r occurs too often' % p[0]
    sizes = [len(s) for _, s in left]
    if strategy[0] == 'n' and sizes and max(sizes) - min(sizes) > 1:
        return 'sizes of zones %r differ by more than one' % sizes
    if strategy[0] == 'h' and len(left) > 1 and min(sizes) == 0:
        return 'hierarchical decomposition has an empty zone: %r' % sizes
    if strategy[0] == 'h' and hi > 1:
        return check_tree([c for c, _, _ in grids.faces(g)], left, int(strategy[1:]) + 1)
    return None


def face_index(g):
    """{coordinates of the three nodes: [global numbers]}"""
    r = {}
    for i, (c, d, z) in enumerate(grids.faces(g)):
        r.setdefault(c, []).append(i)
    return r


def check_dat(g, path, strategy, fixed, rf):
    """*.dat file made by split."""
    try:
        h = grids.parse_dat(path)
    except (OSError, grids.FormatError, ValueError, IndexError) as e:
        return '%s: %s' % (os.path.basename(path), e)
    return check_parsed(g, h, strategy, fixed, rf)


def check_parsed(g, h, strategy, fixed, rf):
    vs = list(g['vars'])
    if 'RecoveryFactor' not in vs and rf is not None:
        vs.append('RecoveryFactor')
    if h['vars'] != vs:
        return 'variables %r instead of %r' % (h['vars'], vs)
    if h['title'] != g['title']:
        return 'title %r instead of %r' % (h['title'], g['title'])
    idx = face_index(g)
    src = grids.faces(g)
    parts = [(z['name'], set()) for z in h['zones']]
    used = set()
    for c, d, zi in grids.faces(h):
        m = [i for i in idx.get(c, []) if i not in used]
        if not m:
            return 'face %r of zone %d is not in the original grid (or occurs too often)' % (c, zi)
        i = m[0]
        used.add(i)
        parts[zi][1].add(i)
        w = dict(src[i][1])
        if rf is not None:
            w.setdefault('RecoveryFactor', rf)
        if d != w:
            return 'face %d: data %r instead of %r' % (i, d, w)
    for z in h['zones']:
        if len(set(map(tuple, z['nodes']))) != len(z['nodes']):
            return 'zone %r has duplicate nodes' % z['name']
        u = {v for t in z['faces'] for v in t}
        if len(u) != len(z['nodes']):
            return 'zone %r has unused nodes' % z['name']
    return check_zones(g, parts, strategy, fixed)


def read_set(d, nm, ts):
    """All *.cry files of a partition.

    :return: (list of parsed files, None) or (None, what is wrong)
    """
    pat = re.compile(re.escape(nm) + r'_(\d{5})_' + ts + r'\.cry$')
    ks = sorted(int(m.group(1)) for m in (pat.match(f) for f in os.listdir(d)) if m) if os.path.isdir(d) else []
    if ks != list(range(len(ks))) or not ks:
        return None, 'ranks of the *.cry files are %r' % ks
    r = []
    for k in ks:
        p = os.path.join(d, '%s_%05d_%s.cry' % (nm, k, ts))
        try:
            r.append(grids.parse_cry(p))
        except (OSError, grids.FormatError, ValueError, IndexError) as e:
            return None, '%s: %s' % (os.path.basename(p), e)
    return r, None


def check_set(g, d, nm, ts, strategy, fixed, rf):
    files, e = read_set(d, nm, ts)
    if e:
        return e
    return check_files(g, files, strategy, fixed, rf)


def check_files(g, files, strategy, fixed, rf):
    src = grids.faces(g)
    parts = []
    # Edges of the whole surface: geometric edge -> faces.
    edges = {}
    for i, (c, _, _) in enumerate(src):
        for k in range(3):
            edges.setdefault(frozenset((c[k], c[(k + 1) % 3])), []).append(i)
    owner = {}
    for r, f in enumerate(files):
        if f['rank'] != r:
            return 'rank in file %d is %d' % (r, f['rank'])
        parts.append((f['title'], set(f['gloid'])))
        if len(set(f['gloid'])) != len(f['gloid']):
            return 'rank %d: duplicate faces' % r
        for x in f['gloid']:
            owner[x] = r
    e = check_zones(g, parts, strategy, fixed) if strategy else None
    if e:
        return e
    for r, f in enumerate(files):
        if len(set(f['nodes'])) != len(f['nodes']):
            return 'rank %d: duplicate nodes' % r
        if {v for t in f['fn'] for v in t} != set(range(len(f['nodes']))):
            return 'rank %d: unused nodes' % r
        ge = [frozenset((f['nodes'][a], f['nodes'][b])) for a, b in f['en']]
        if len(set(ge)) != len(ge):
            return 'rank %d: duplicate edges' % r
        for j, x in enumerate(f['gloid']):
            if not 0 <= x < len(src):
                return 'rank %d: no face %d in the grid' % (r, x)
            c = tuple(tuple(f['nodes'][v]) for v in f['fn'][j])
            if c != src[x][0]:
                return 'rank %d: face %d has nodes %r instead of %r' % (r, x, c, src[x][0])
            for v in grids.CRY_VARS[4:]:
                w = src[x][1].get(v, rf if v == 'RecoveryFactor' and rf is not None else 0.0)
                if f['data'][j][v] != w:
                    return 'rank %d: face %d: %s = %r instead of %r' % (r, x, v, f['data'][j][v], w)
            want = {frozenset((c[k], c[(k + 1) % 3])) for k in range(3)}
            if {ge[k] for k in f['fe'][j]} != want:
                return 'rank %d: face %d has wrong edges' % (r, x)
        if {k for t in f['fe'] for k in t} != set(range(len(ge))):
            return 'rank %d: unused edges' % r
    # Borders.
    nb = {}
    for k, fs in edges.items():
        if len(fs) == 2:
            a, b = owner[fs[0]], owner[fs[1]]
            if a != b:
                nb.setdefault(a, {}).setdefault(b, set()).add(k)
                nb.setdefault(b, {}).setdefault(a, set()).add(k)
    lists = {}
    for r, f in enumerate(files):
        ge = [frozenset((f['nodes'][a], f['nodes'][b])) for a, b in f['en']]
        ks = [k for k, _ in f['borders']]
        if sorted(ks) != sorted(nb.get(r, {})):
            return 'rank %d: neighbours %r instead of %r' % (r, ks, sorted(nb.get(r, {})))
        for k, es in f['borders']:
            lists[(r, k)] = [ge[x] for x in es]
            if len(set(es)) != len(es) or {ge[x] for x in es} != nb[r][k]:
                return 'rank %d: wrong border with rank %d' % (r, k)
        if f['cross'] != sum(len(s) for s in nb.get(r, {}).values()):
            return 'rank %d: CROSS-EDGES=%d instead of %d' % (r, f['cross'],
                                                            sum(len(s) for s in nb.get(r, {}).values()))
    for (a, b), l in lists.items():
        if l != lists[(b, a)]:
            return 'ranks %d and %d list their common border in different orders' % (a, b)
    return None
