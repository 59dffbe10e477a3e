"""E10: the boundary and the hole markers handed to the triangulation, for rings of given sizes at symbolic positions"""
import itertools
import numpy as np

from .checks import *
from .concrete import grid, make
from .rules_env import SAMP
from .rules_place import record
from .terms import _mk, subterms
from .values import *

# every shape: polygons as (points of the outer ring, points of each hole), and which outer ring lies in which hole: {(polygon, hole): [polygons]};
# nested polygons listed in SPLIT touch their hole so that two parts are left of it
SHAPES = [
    ('Polygon', 'no hole', [(4, [])], {}, ()),
    ('Polygon', 'one hole', [(5, [3])], {}, ()),
    ('Polygon', 'three holes', [(4, [3, 5, 4])], {}, ()),
    ('MultiPolygon', 'one part', [(4, [])], {}, ()),
    ('MultiPolygon', 'two parts', [(3, []), (5, [])], {}, ()),
    ('MultiPolygon', 'holes in the second part', [(3, []), (6, [4, 3])], {}, ()),
    ('MultiPolygon', 'part in a hole', [(4, [5]), (3, [])], {(0, 0): [1]}, ()),
    ('MultiPolygon', 'part with a hole in a hole', [(3, []), (4, [3, 5]), (3, [4])], {(1, 1): [2]}, ()),
    ('MultiPolygon', 'two parts in a hole', [(4, []), (3, [3]), (5, [4, 3])], {(2, 0): [0, 1]}, ()),
    ('MultiPolygon', 'part dividing a hole', [(4, [5, 3]), (4, [])], {(0, 0): [1]}, ((0, 0),)),
]

def ints(g):
    cs = [cval(x) for x in g.reshape(-1)]
    return None if None in cs else np.array([int(c) for c in cs], dtype=int).reshape(g.shape)


def each(f):
    """a function of the geometry library applied to every element"""
    def go(I, st, a, k, n):
        gs = []
        for x in a:
            x = I.resolve(x, st.pc) if not isinstance(x, T) else x
            g = grid(I, st, x) if not isinstance(x, T) or x.op in ('lam', 'tup') else None
            if g is None:
                if not isinstance(x, T):
                    return I.unk('geometry', n)
                g = np.empty((), dtype=object)
                g[()] = x
            gs.append(g)
        try:
            gs = np.broadcast_arrays(*gs)
        except ValueError:
            return I.unk('shapes', n)
        out = np.empty(gs[0].shape, dtype=object)
        for at_ in np.ndindex(*out.shape):
            out[at_] = f(*[g[at_] for g in gs])
        return make(I, st, out)
    return go


def folded(name, fails):
    """a rearrangement of an array of known shape"""
    def go(I, st, a, k, n):
        try:
            return fold(I, st, a, k, n)
        except (IndexError, ValueError) as e:
            fails.append('numpy.%s: %s' % (name, e))
            return I.unk(name, n)

    def fold(I, st, a, k, n):
        gs = []
        for x in list(a):
            g = grid(I, st, x) if not isinstance(x, T) or x.op in ('lam', 'tup', 'range') else x
            gs.append(x if g is None else g)
        axis = k.get('axis')
        whole = lambda x: ints(x) if isinstance(x, np.ndarray) else int(cval(x)) if isinstance(x, T) and cval(x) is not None else None
        ax = None if axis in (None, NONE) else whole(axis)
        if name == 'cumsum':
            x = ints(gs[0]) if isinstance(gs[0], np.ndarray) else None
            r = None if x is None else np.cumsum(x, axis=ax)
        elif name == 'delete':
            w = whole(gs[1])
            r = None if w is None or not isinstance(gs[0], np.ndarray) else np.delete(gs[0], w, axis=whole(a[2]) if len(a) > 2 else ax)
        elif name == 'insert':
            w = whole(gs[1])
            r = None if w is None or not all(isinstance(x, np.ndarray) for x in (gs[0], gs[2])) else np.insert(gs[0], w, gs[2], axis=ax)
        elif name == 'roll':
            w = whole(gs[1])
            r = None if w is None or not isinstance(gs[0], np.ndarray) else np.roll(gs[0], w, axis=ax)
        elif name == 'repeat':
            w = whole(gs[1])
            r = None if w is None or not isinstance(gs[0], np.ndarray) else np.repeat(gs[0], w, axis=ax)
        else:
            r = None
        if r is None:
            return I.unk(name, n)
        if r.dtype != object:
            q = np.empty(r.shape, dtype=object)
            for at_ in np.ndindex(*r.shape):
                q[at_] = num(int(r[at_]))
            r = q
        return make(I, st, r)
    return go


class Shape:
    def __init__(self, I, case):
        self.kind, self.name, self.polys, self.inside, self.split = case
        self.I = I
        self.tables = {}
        self.fails = []
        self.outer = [sym('outer ring %d' % i, 'o') for i in range(len(self.polys))]
        self.holes = [[sym('hole ring %d of %d' % (j, i), 'o') for j in range(len(h))] for i, (_, h) in enumerate(self.polys)]
        self.rings = {r: k for r, (k, _) in zip(self.outer, self.polys)}
        self.rings.update({r: k for hs, (_, ks) in zip(self.holes, self.polys) for r, k in zip(hs, ks)})
        self.poly = [sym('polygon %d' % i, 'o') for i in range(len(self.polys))]
        self.given = sym('the polygons', 'o')
        C = I.contract_funcs
        for pre in ('shapely.', 'shapely.geometry.'):
            C[pre + 'get_exterior_ring'] = each(lambda p: self.outer[self.poly.index(p)] if p in self.poly else fn('ring of', p))
            C[pre + 'get_num_interior_rings'] = each(lambda p: num(len(self.holes[self.poly.index(p)])) if p in self.poly else fn('rings of', p))
            C[pre + 'get_interior_ring'] = each(self.hole)
            C[pre + 'covers'] = each(self.covers)
            C[pre + 'contains'] = each(self.covers)
            C[pre + 'within'] = each(lambda x, y: self.covers(y, x))
            C[pre + 'covered_by'] = each(lambda x, y: self.covers(y, x))
            C[pre + 'difference'] = each(lambda x, y: fn('minus', x, y))
            C[pre + 'point_on_surface'] = each(lambda x: fn('inside', x))
            C[pre + 'centroid'] = each(lambda x: fn('centroid', x))
            C[pre + 'get_num_points'] = each(lambda r: num(self.rings[r] + 1) if r in self.rings else fn('points of', r))
            C[pre + 'get_num_coordinates'] = C[pre + 'get_num_points']
            C[pre + 'get_coordinates'] = self.coordinates
            C[pre + 'get_parts'] = self.parts
            C[pre + 'MultiPolygon'] = self.multi
            C[pre + 'Polygon'] = self.filled
            C[pre + 'polygons'] = each(lambda r: fn('filled', r))
        for x in ('cumsum', 'delete', 'insert', 'roll', 'repeat'):
            C['numpy.' + x] = folded(x, self.fails)
        I.attr_hook = self.attr
        I.contract_methods[('*', 'representative_point')] = I.contract_methods[('*', 'point_on_surface')] = lambda I, st, a, k, n: fn('inside', I.closed(st, a[0]))
        I.contract_methods[('*', 'difference')] = lambda I, st, a, k, n: fn('minus', I.closed(st, a[0]), I.closed(st, a[1]))

    def hole(self, p, i):
        c = cval(i)
        if p not in self.poly or c is None:
            return fn('hole of', p, i)
        hs = self.holes[self.poly.index(p)]
        return hs[int(c)] if -len(hs) <= c < len(hs) else NONE

    def ring_of(self, region):
        return region.args[1][0] if region.op == 'fn' and region.args[0] == 'filled' else None

    def covers(self, x, y):
        if x.op == 'fn' and x.args[0] == 'minus':
            return andd(self.covers(x.args[1][0], y), nott(self.meets(x.args[1][1], y)))
        a, b = self.ring_of(x), self.ring_of(y)
        if a is None or b is None:
            return pred('covers', x, y)
        return TRUE if b in self.within(a) else FALSE

    def meets(self, x, y):
        a, b = self.ring_of(x), self.ring_of(y)
        if a is None or b is None:
            return pred('meets', x, y)
        return TRUE if a is b or b in self.within(a) or a in self.within(b) else FALSE

    def within(self, r):
        """the rings inside the region a ring encloses, its own included"""
        out = {r}
        for i, o in enumerate(self.outer):
            if o is r:
                for h in self.holes[i]:
                    out |= self.within(h)
            for j, h in enumerate(self.holes[i]):
                if h is r:
                    for p in self.inside.get((i, j), ()):
                        out |= self.within(self.outer[p])
        return out

    def multi(self, I, st, a, k, n):
        its = I.static_items(st, a[0]) if a else None
        if its is None:
            return I.unk('polygons', n)
        out = []
        for x in its:
            xs = I.static_items(st, x)
            if xs is None or not xs or len(xs) > 1 and (I.static_items(st, xs[1]) != []):
                return I.unk('polygon', n)
            out.append(fn('filled', I.closed(st, xs[0])))
        t = fn('collection', *out)
        self.tables[t] = out
        return t

    def filled(self, I, st, a, k, n):
        holes = k.get('holes', a[1] if len(a) > 1 else NONE)
        if holes is not NONE and I.static_items(st, holes) != []:
            return I.unk('polygon', n)
        return fn('filled', I.closed(st, a[0] if a else k.get('shell')))

    def parts(self, I, st, a, k, n):
        g = grid(I, st, a[0]) if not isinstance(a[0], T) or a[0].op in ('lam', 'tup') else None
        xs = list(g.reshape(-1)) if g is not None else [a[0]] if isinstance(a[0], T) else None
        if xs is None:
            return I.unk('parts', n)
        out = []
        for x in xs:
            out += self.tables[x] if x in self.tables else self.pieces(x)
        g = np.empty(len(out), dtype=object)
        g[:] = out
        return make(I, st, g)

    def pieces(self, x):
        base, cut = pared(x)
        for i, j in self.split:
            if self.ring_of(base) is self.holes[i][j] and {self.ring_of(c) for c in cut} & {self.outer[p] for p in self.inside[(i, j)]}:
                return [fn('part', x, num(0)), fn('part', x, num(1))]
        return [x]

    def coordinates(self, I, st, a, k, n):
        v = a[0]
        g = grid(I, st, v) if not isinstance(v, T) or v.op in ('lam', 'tup') else None
        xs = list(g.reshape(-1)) if g is not None else [v] if isinstance(v, T) else I.static_items(st, v)
        if xs is None:
            return I.unk('coordinates', n)
        rows = []
        for x in xs:
            x = I.closed(st, x)
            if self.ring_of(x) in self.rings:
                x = self.ring_of(x)
            if x in self.rings:
                rows += [[corner(x, j % self.rings[x], c) for c in (0, 1)] for j in range(self.rings[x] + 1)]
            elif x.op == 'fn' and x.args[0] in ('inside', 'centroid'):
                rows.append([fn('coordinate', x, num(c)) for c in (0, 1)])
            else:
                return I.unk('coordinates of ' + show(x)[:60], n)
        g = np.empty((len(rows), 2), dtype=object)
        for i, r in enumerate(rows):
            g[i, 0], g[i, 1] = r
        return make(I, st, g)

    def attr(self, I, st, o, name, node):
        if isinstance(o, T):
            if o is self.given:
                if name == 'geoms':
                    return I.list_of(st, self.poly)
                if name == 'exterior':
                    return self.outer[0]
                if name == 'interiors':
                    return I.list_of(st, self.holes[0])
                if name == 'bounds':
                    return Tup([sym(x, 'x') for x in ('min x', 'min y', 'max x', 'max y')])
            if o in self.poly:
                i = self.poly.index(o)
                if name == 'exterior':
                    return self.outer[i]
                if name == 'interiors':
                    return I.list_of(st, self.holes[i])
            if o.op == 'fn' and o.args[0] in ('filled', 'minus') and name == 'centroid':
                return fn('centroid', o)
            if o.op == 'fn' and o.args[0] in ('inside', 'centroid') and name in ('x', 'y'):
                return fn('coordinate', o, num('xy'.index(name)))
            if o.op == 'fn' and o.args[0] in ('inside', 'centroid') and name == 'coords':
                return I.list_of(st, [Tup([fn('coordinate', o, num(c)) for c in (0, 1)])])
            if o in self.tables and name == 'geoms':
                return I.list_of(st, self.tables[o])
            if o in self.rings and name == 'coords':
                return I.list_of(st, [Tup([corner(o, j % self.rings[o], c) for c in (0, 1)]) for j in range(self.rings[o] + 1)])
        return None


def corner(ring, j, c):
    return fn('corner', ring, num(j), num(c))


def pared(x):
    """the region something is cut from, and what is cut"""
    cut = []
    while x.op == 'fn' and x.args[0] == 'minus':
        x, y = x.args[1]
        cut.append(y)
    return x, cut


def E10(rep):
    rep.rule('vertices', 'every corner of every ring, and nothing else, is a vertex of the triangulation')
    rep.rule('segments', 'the boundary segments are the edges of every ring: each corner to the next, the last to the first of its own ring')
    rep.rule('markers', 'every part of every hole, less the polygons nested in it, has a marker inside; every other marker lies outside the bounds of the polygons')
    for case in SHAPES:
        rep.guard('segments', '%s, %s' % case[:2], lambda: outline(rep, case), SAMP)


def outline(rep, case):
    where = fdef(repo(), SAMP, 'random_point_in_mpolygon')
    repo().func(SAMP, 'random_point_in_mpolygon')
    R = Run(SAMP)
    I = R.I
    S = Shape(I, case)
    key = '%s, %s' % case[:2]
    asked = []
    count = [0]

    def tri(I, st, a, k, n):
        d = I.resolve(a[0] if a else k.get('tri'), st.pc)
        items = {kk.args[1]: grid(I, st, v) for kk, v, g in st.cells[('D', d.id)].items if kk.op == 'k' and g is TRUE} if isinstance(d, DictRef) else None
        asked.append(items)
        return I.unk('triangulation', n)
    I.contract_funcs['triangle.triangulate'] = tri

    def isinst(I, st, a, k, n):
        if isinstance(a[0], T) and a[0] is S.given:
            cs = list(a[1].items) if isinstance(a[1], Tup) else [a[1]]
            names = [getattr(c, 'name', '').split('.')[-1] for c in cs]
            return TRUE if case[0] in names else FALSE
        return None
    I.contract_funcs['isinstance'] = isinst
    R.call(SAMP, 'random_point_in_mpolygon', S.given, rng=I.new_obj('numpy.random.default_rng', [sym('given', 'x')], {}, None, R.st))
    rep.saw(I)
    if S.fails:
        rep.ob('vertices', key, False, where, 'the outline cannot be built: %s' % S.fails[0])
        return
    if len(asked) != 1 or asked[0] is None:
        rep.ob('segments', key, None, where, '%d triangulations' % len(asked))
        return
    d = asked[0]
    V, E, H = d.get('vertices'), d.get('segments'), d.get('holes')
    E = None if E is None else ints(E)
    points = None
    if V is not None and V.ndim == 2 and V.shape[1] == 2:
        points = []
        for x, y in V:
            r = None
            for q in ((x, y),):
                if all(z.op == 'fn' and z.args[0] == 'corner' for z in q):
                    (a, j, c), (b, i, e) = [z.args[1] for z in q]
                    r = (a, int(cval(j))) if a is b and j is i and (c, e) == (ZERO, ONE) else False
            points.append(r)
    want = {(r, j) for r, n in S.rings.items() for j in range(n)}
    if points is None or None in points:
        rep.ob('vertices', key, None, where, 'vertices not resolved')
        return
    missing = want - {p for p in points if p}
    rep.ob('vertices', key, False not in points and not missing, where, 'missing %s%s' % (sorted('%s.%d' % (show(r), j) for r, j in missing)[:4], ', mixed rows' if False in points else ''))
    if E is None or E.ndim != 2 or E.shape[1] != 2:
        rep.ob('segments', key, None, where, 'segments not resolved')
    else:
        edges = {frozenset(((r, j), (r, (j + 1) % n))) for r, n in S.rings.items() for j in range(n)}
        off = any(not -0 <= x < len(points) for x in E.reshape(-1))
        got = set() if off else {frozenset((points[a], points[b])) for a, b in E if points[a] != points[b]}
        bad = sorted('%s-%s' % tuple(('%s.%d' % (show(p[0]), p[1])) if p else '?' for p in (sorted(e, key=str) * 2)[:2]) for e in got ^ edges)
        rep.ob('segments', key, not off and got == edges, where, 'differ in %s' % bad[:4] if not off else 'a segment names a vertex that does not exist')
    if H is None or H.ndim != 2 or H.shape[1] != 2:
        rep.ob('markers', key, None if H is not None or 'holes' in d else not any(S.holes), where, 'markers not resolved')
        return
    lo = [sym('min x', 'x'), sym('min y', 'x')]
    hi = [sym('max x', 'x'), sym('max y', 'x')]
    regions, wrong, open_ = [], [], []
    for x, y in H:
        if all(z.op == 'fn' and z.args[0] == 'coordinate' for z in (x, y)):
            (p, c), (q, e) = x.args[1], y.args[1]
            (regions if p is q and (c, e) == (ZERO, ONE) and p.args[0] == 'inside' else wrong).append(p.args[1][0])
        elif any(imp(f) is True for z, a, b in ((x, lo[0], hi[0]), (y, lo[1], hi[1])) for f in (lt(z, a), lt(b, z))):
            pass
        else:
            s = {u for z in (x, y) for u in subterms(z) if u.op in ('call', 'unk', 'phi')}
            (open_ if s else wrong).append(x)
    need = []
    for i, hs in enumerate(S.holes):
        for j, h in enumerate(hs):
            need += [(h, k) for k in ((0, 1) if (i, j) in S.split else (None,))]
    have = []
    if any(has_unknown(x) for x in regions + wrong):
        open_.append(V)
    for x in regions:
        k = None
        if x.op == 'fn' and x.args[0] == 'part':
            x, k = x.args[1][0], int(cval(x.args[1][1]))
        base, cut = pared(x)
        h = S.ring_of(base)
        cut = [S.ring_of(c) for c in cut]
        at_ = [(i, j) for i, hs in enumerate(S.holes) for j, y in enumerate(hs) if y is h]
        if not at_ or None in cut:
            wrong.append(x)
            continue
        nested = {S.outer[p] for p in S.inside.get(at_[0], ())}
        inner = S.within(h)
        if not nested <= set(cut) or any(h in S.within(c) for c in cut):
            wrong.append(x)
        else:
            have.append((h, k if at_[0] in S.split else None))
    lost = [x for x in need if x not in have]
    ok = None if open_ else not wrong and not lost
    rep.ob('markers', key, ok, where, 'markers %s %s' % ('missing in %s' % [show(h) for h, _ in lost][:3] if lost else '', 'misplaced %s' % [show(x)[:120] for x in wrong][:3] if wrong else ''))
