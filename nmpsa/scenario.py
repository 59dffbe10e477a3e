"""Protocol scenarios of the planners: construct, grow, query, retune, reset, against opaque collaborators."""
from .checks import *
from .terms import _mk
from .arrays import to_arr, elementwise, index_arr
from .values import *

PRM = 'nonasymptotic.prm'
ANN = 'nonasymptotic.ann'
d = sym('dim', 'pi')
n = sym('n', 'pi')
k0 = sym('k', 'pi')
rad = sym('radius', 'n')
FULL, KNN, RADIUS = 'SimpleFullConnRadiusPRM', 'SimpleNearestNeighborRadiusPRM', 'SimpleRadiusPRM'
SIG = {FULL: ['connection_rad', 'motion_validity_checker', 'valid_state_sampler', 'seed', 'verbose'],
       KNN: ['k_neighbors', 'motion_validity_checker', 'valid_state_sampler', 'sdf_to_path', 'truncate_to_eff_rad'],
       RADIUS: ['connection_rad', 'motion_validity_checker', 'valid_state_sampler', 'sdf_to_path', 'max_k_connection_neighbors']}


def row_of(I, st, a, node):
    """(axes other than the last, closed row term in those axes)"""
    arr = to_arr(I, st, a, node)
    if not isinstance(arr, Arr) or not arr.axes:
        return None
    arr = arr.fresh()
    last = arr.axes[-1]
    return arr.axes[:-1], lam(last.vars, last.sizes, last.guard, arr.body)


def check_motion(I, st, args, kw, node):
    """the supplied motion checker: an arbitrary predicate of the two points, row by row"""
    for i in (0, 1):
        v = I.resolve(args[i], st.pc)
        if isinstance(v, Choice):
            return I.map_choice(st, v, lambda x, s: check_motion(I, s, list(args[:i]) + [x] + list(args[i + 1:]), kw, node))
    a, b = args[0], args[1]
    ra, rb = row_of(I, st, a, node), row_of(I, st, b, node)
    I.event(st, 'check_motion', None, args, kw, node)
    if ra is None or rb is None:
        return I.unk('motion check', node)
    (ax, x), (bx, y) = ra, rb
    if not ax and not bx:
        return pred('valid', x, y)
    if len(ax) != 1 or len(bx) != 1:
        return I.unk('motion check', node)
    A = I.new_arr(st, ax, ZERO)
    xs = Arr(ax, x)
    ys = Arr(bx, y)
    from .arrays import broadcast
    b2 = broadcast(I, [xs, ys])
    if b2 is None:
        return I.unk('motion check shapes', node)
    axes, bodies = b2
    return I.new_arr(st, axes, pred('valid', *bodies))


def sampler(I, st, args, kw, node):
    r = I.call_term('draw')
    I.event(st, 'draw', None, args, kw, node, r)
    v = fresh_var()
    return I.new_arr(st, [Ax([v], [d])], at(r, v))


def sdf(I, st, args, kw, node):
    v = I.resolve(args[0], st.pc)
    if isinstance(v, Choice):
        return I.map_choice(st, v, lambda x, s: sdf(I, s, [x] + list(args[1:]), kw, node))
    ra = row_of(I, st, args[0], node)
    I.event(st, 'sdf', None, args, kw, node)
    if ra is None or len(ra[0]) != 1:
        return I.unk('sdf', node)
    return I.new_arr(st, ra[0], fn('sdf', ra[1]))


class Ann:
    """a neighbour back end: every answer is an arbitrary table of ids and distances of the requested shape"""

    def __init__(self):
        self.builds = []

    def get(self, I, st, args, kw, node):
        r = I.new_obj('ann', args, kw, node, st)
        I.event(st, 'get_ann', None, args, kw, node, r)
        return r

    def answer(self, I, st, rows, k, node, tag):
        if I.binders:
            e, f = I.call_term('ids'), I.call_term('dists')
        else:
            self.count = getattr(self, 'count', 0) + 1
            e, f = sym('ids%d' % self.count, 'I'), sym('dists%d' % self.count, 'n')
        v, w = fresh_var(), fresh_var()
        v2, w2 = fresh_var(), fresh_var()
        E = I.new_arr(st, [Ax([v], [rows]), Ax([w], [k])], at(e, v, w))
        D = I.new_arr(st, [Ax([v2], [rows]), Ax([w2], [k])], at(f, v2, w2))
        self.builds.append((tag, e, f, rows, k, st.pc, I.events[-1] if I.events else None))
        return Tup([E, D])

    def build(self, I, st, args, kw, node):
        base = args[0]
        if not (isinstance(base, T) and base.op == 'obj' and base.args[0] == 'ann'):
            return None
        names = ['data', 'k_neighbors']
        a = {x: y for x, y in zip(names, args[1:])}
        data = a.get('data')
        k = a.get('k_neighbors')
        for q in kw:
            if 'k' in q:
                k = kw[q]
            else:
                data = kw[q]
        I.event(st, 'ann.build', base, [data, k], {}, node)
        rows = I.length(st, data)
        self.state_key(I, st, base, (rows, k))
        return self.answer(I, st, rows, k, node, 'build')

    def state_key(self, I, st, base, v):
        self.last = v

    def update(self, I, st, args, kw, node):
        base = args[0]
        data = args[1] if len(args) > 1 else list(kw.values())[0]
        I.event(st, 'ann.update', base, [data], {}, node)
        rows0, k = self.last
        return self.answer(I, st, add(rows0, I.length(st, data)), k, node, 'update')


class Planner:
    def __init__(self, cls, verbose=sym('VERBOSE', 'b'), st=None, **over):
        self.cls = cls
        R = self.R = Run(PRM)
        I = R.I
        self.ann = Ann()
        I.contract_funcs[(ANN, 'get_ann')] = self.ann.get
        I.contract_methods[('*', 'new_graph_from_data')] = self.ann.build
        I.contract_methods[('*', 'update_graph_with_data')] = self.ann.update
        I.contract_methods[('*', 'getPath')] = self.get_path
        I.contract_methods[('*', 'getDistance')] = self.get_distance
        I.contract_methods[('*', 'getDistances')] = self.get_distances
        self.tables = []
        self.check = PyVal('check_motion', check_motion)
        self.sampler = PyVal('sampler', sampler)
        self.sdf = PyVal('sdf', sdf)
        kw = {'motion_validity_checker': self.check, 'valid_state_sampler': self.sampler, 'verbose': verbose, 'seed': sym('SEED', 'oN')}
        if cls == KNN:
            kw.update(k_neighbors=k0, sdf_to_path=self.sdf, truncate_to_eff_rad=FALSE)
        elif cls == FULL:
            kw.update(connection_rad=rad)
        else:
            kw.update(connection_rad=rad, sdf_to_path=self.sdf)
        kw.update(over)
        self.kw = kw
        self.obj = R.call(PRM, cls, **kw)

    def get_path(self, I, st, args, kw, node):
        """the vertices a search visited, in order"""
        r = I.call_term('path')
        I.event(st, '.getPath', args[0], args[1:], kw, node, r)
        v = fresh_var()
        return I.new_arr(st, [Ax([v], [_mk('len', r)])], at(r, v))

    def get_distance(self, I, st, args, kw, node):
        """the length a search found, infinite when it found none"""
        r = I.call_term('.getDistance')
        I.event(st, '.getDistance', args[0], args[1:], kw, node, r)
        return ite(pred('reached', r), r, INF)

    def get_distances(self, I, st, args, kw, node):
        """the table of an all-pairs search between the vertices it was given"""
        r = I.call_term('spsp')
        I.event(st, '.getDistances', args[0], args[1:], kw, node, r)
        sz = []
        for name in ('networkit.distance.SPSP', '.setTargets'):
            for e in I.events:
                a = None
                if name[0] != '.' and e.result is args[0] and e.name == name:
                    a = e.args[1] if len(e.args) > 1 else e.kw.get('sources')
                elif name[0] == '.' and e.recv is args[0] and e.name == name:
                    a = e.args[0] if e.args else e.kw.get('targets')
                if a is not None:
                    sz.append(I.length(st, a))
        if len(sz) != 2:
            return None
        v, w = fresh_var(), fresh_var()
        self.tables.append((r, args[0]))
        return I.new_arr(st, [Ax([v], [sz[0]]), Ax([w], [sz[1]])], at(r, v, w))

    def twin(self):
        """a second planner built with the same arguments in the same process"""
        import copy
        Q = copy.copy(self)
        Q.obj = self.R.call(PRM, self.cls, **self.kw)
        return Q

    def grow(self, m=n):
        return self.R.method(self.obj, 'grow_to_n_samples', m)

    def attr(self, a):
        return self.R.attr(self.obj, a)

    def set_attr(self, a, v):
        self.R.I.set_attr(self.R.st, self.obj, a, v, None)

    def closed(self, v):
        return self.R.closed(v)
