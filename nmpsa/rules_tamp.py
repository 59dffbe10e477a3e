"""Task-and-motion planning experiments: planning domains, streams, motion streams, launchers, collision tests, plan execution."""
import ast
import os

from .checks import *
from . import teval
from .loader import AnchorMissing
from .flow import Flow
from .terms import _mk, open_lam, subterms
from .extmodels import to_arr
from .npmodels import NP
from .values import *

BASE = 'exps/tamp_environment'
WORLDS = ('turtlebot_move', 'kuka_carry')


# ------------------------------------------------------------------------------------------------ PDDL

class Sx(list):
    """parenthesised expression with its line"""
    line = 0


def sexpr(text, rel):
    """top-level expressions of a PDDL file (names are case-insensitive, ';' starts a comment)"""
    toks, line = [], 1
    for ln in text.split('\n'):
        ln = ln.split(';', 1)[0]
        for w in ln.replace('(', ' ( ').replace(')', ' ) ').split():
            toks.append((w.lower(), line))
        line += 1
    out, stack = Sx(), []
    cur = out
    for w, l in toks:
        if w == '(':
            n = Sx()
            n.line = l
            cur.append(n)
            stack.append(cur)
            cur = n
        elif w == ')':
            if not stack:
                raise ValueError('%s:%d: unbalanced parenthesis' % (rel, l))
            cur = stack.pop()
        else:
            cur.append(w)
    if stack:
        raise ValueError('%s: unclosed parenthesis' % rel)
    return out


def variables(xs):
    """names of a (possibly typed) variable list"""
    out, skip = [], False
    for x in xs:
        if x == '-':
            skip = True
        elif skip:
            skip = False
        elif isinstance(x, str):
            out.append(x)
    return out


class Lit:
    __slots__ = ('pred', 'args', 'pos', 'line')

    def __init__(self, pred, args, pos, line):
        self.pred, self.args, self.pos, self.line = pred, tuple(args), pos, line

    def __repr__(self):
        s = '(%s)' % ' '.join((self.pred,) + self.args)
        return s if self.pos else '(not %s)' % s

    @property
    def key(self):
        return (self.pred,) + self.args


def literals(x, bound, out, odd, pos=True):
    """literals of a conjunction; anything that is no conjunction of literals is noted in odd"""
    if not isinstance(x, list) or not x:
        if x:
            odd.append(x)
        return
    h = x[0]
    if h == 'and' and pos:
        for y in x[1:]:
            literals(y, bound, out, odd, pos)
    elif h == 'not' and len(x) == 2:
        literals(x[1], bound, out, odd, not pos)
    elif h in ('exists', 'forall', 'or', 'imply', 'when', 'increase', 'assign', 'and'):
        odd.append(x)
        # the literals inside are still checked for declaration and arity
        inner = []
        for y in x[1:]:
            if isinstance(y, list) and (not y or not str(y[0]).startswith('?')):
                literals(y, bound, inner, [], True)
        for l in inner:
            out.append(('inner', l, x))
    elif isinstance(h, str):
        l = Lit(h, [a for a in x[1:] if isinstance(a, str)], pos, x.line)
        out.append(('lit', l, x))


class Action:
    def __init__(self, x):
        self.name, self.line = x[1], x.line
        parts = {x[i]: x[i + 1] for i in range(2, len(x) - 1, 2) if isinstance(x[i], str)}
        self.params = variables(parts.get(':parameters', []))
        self.odd = []
        pre, eff = [], []
        literals(parts.get(':precondition', []), set(), pre, self.odd)
        literals(parts.get(':effect', []), set(), eff, self.odd)
        self.all = [l for _, l, _ in pre + eff]
        self.pre = [l for k, l, _ in pre if k == 'lit' and l.pos]
        self.add = [l for k, l, _ in eff if k == 'lit' and l.pos]
        self.dele = [l for k, l, _ in eff if k == 'lit' and not l.pos]
        self.raw = [(parts.get(':precondition', []), 'precondition'), (parts.get(':effect', []), 'effect')]


class Stream:
    def __init__(self, x):
        self.name, self.line = x[1], x.line
        parts = {x[i]: x[i + 1] for i in range(2, len(x) - 1, 2) if isinstance(x[i], str)}
        self.inputs = variables(parts.get(':inputs', []))
        self.outputs = variables(parts.get(':outputs', []))
        self.fluents = [f if isinstance(f, str) else f[0] for f in parts.get(':fluents', [])]
        self.odd = []
        d, c = [], []
        literals(parts.get(':domain', []), set(), d, self.odd)
        literals(parts.get(':certified', []), set(), c, self.odd)
        self.domain = [l for _, l, _ in d]
        self.certified = [l for _, l, _ in c]


class World:
    """the declarations of one planning problem"""

    def __init__(self, name):
        self.name = name
        self.dir = '%s/%s' % (BASE, name)
        rp = repo()
        self.preds, self.params, self.actions, self.derived, self.streams = {}, {}, [], [], []
        self.domain_rel = self.stream_rel = None
        for rel in rp.glob(self.dir, '.pddl'):
            for x in sexpr(rp.read(rel), rel):
                if len(x) < 2 or x[0] != 'define' or not isinstance(x[1], list):
                    continue
                if x[1][0] == 'domain':
                    self.domain_rel = rel
                    self.read_domain(x)
                elif x[1][0] == 'stream':
                    self.stream_rel = rel
                    for y in x[2:]:
                        if y and y[0] == ':stream':
                            self.streams.append(Stream(y))
        if self.domain_rel is None or self.stream_rel is None:
            raise AnchorMissing('domain and stream files of %s' % self.dir)

    def read_domain(self, x):
        for y in x[2:]:
            if not isinstance(y, list) or not y:
                continue
            if y[0] == ':predicates':
                for p in y[1:]:
                    self.preds[p[0]] = len(variables(p[1:]))
                    self.params[p[0]] = variables(p[1:])
            elif y[0] == ':action':
                self.actions.append(Action(y))
            elif y[0] == ':derived':
                self.derived.append(y)

    def role(self, *names):
        der = {y[1][0] for y in self.derived if isinstance(y[1], list) and y[1]}
        c = [n for n in names if n in self.preds and n not in der]
        return c[0] if len(c) == 1 else None

    @property
    def derived_names(self):
        return {y[1][0] for y in self.derived if isinstance(y[1], list) and y[1]}


def worlds():
    return [World(w) for w in WORLDS]


# ------------------------------------------------------------------------------------------------ T01

def motions(W):
    """relation -> (position of the start, of the end, positions of what is carried, stream)"""
    out = {}
    for s in W.streams:
        confs = [a for i in s.inputs for a in [i] if any(l.pred == 'conf' and l.args and l.args[-1] == i for l in s.domain)]
        if len(confs) != 2 or len(s.outputs) != 1:
            continue
        carried = [i for i in s.inputs if i not in confs and i not in robots(s)]
        for l in s.certified:
            if all(c in l.args for c in confs) and s.outputs[0] in l.args:
                out[l.pred] = (l.args.index(confs[0]), l.args.index(confs[1]), [l.args.index(c) for c in carried if c in l.args], s)
    return out


def robots(s):
    """inputs of a stream that name the robot: first argument of a binary configuration fact"""
    return {l.args[0] for l in s.domain if l.pred == 'conf' and len(l.args) == 2}


def check_literal(rep, rule, W, rel, owner, l, scope):
    key = '%s %s %r' % (rel, owner, l)
    where = '%s:%d' % (rel, l.line)
    if l.pred == '=':
        rep.ob(rule, key, len(l.args) == 2, where, 'equality of %d terms' % len(l.args))
        return
    if l.pred not in W.preds:
        rep.ob(rule, key, False, where, '%s uses the undeclared predicate %s' % (owner, l.pred))
        return
    n = W.preds[l.pred]
    free = [a for a in l.args if a.startswith('?') and a not in scope]
    rep.ob(rule, key, len(l.args) == n and not free, where,
           '%s: %r has %d arguments, declared with %d' % (owner, l, len(l.args), n) if len(l.args) != n
           else '%s: %r uses %s, which is no parameter' % (owner, l, ', '.join(free)))


def T01(rep):
    rep.rule('declared', 'every literal of an action or axiom uses a declared predicate with its number of arguments and variables in scope')
    rep.rule('one configuration', 'an action that adds a robot configuration requires and deletes a different previous one of that robot, and none is deleted without a successor')
    rep.rule('pose or held', 'an object loses its pose only when it becomes held (or gets another pose), and stops being held only when it gets a pose; what is deleted is required')
    rep.rule('hand free iff nothing held', 'becoming held requires and deletes the free hand, which is restored exactly when the object is put down')
    rep.rule('certified motion', 'the configuration changes along a motion certified from the previous to the new configuration, with what is held (or a free hand)')
    rep.rule('certified kinematics', 'an object is picked or placed only with its certified kinematics at the configuration where that happens')
    rep.rule('permission to move', 'a permission that gates every motion is used up by every motion and renewed by every pick and place')
    rep.rule('achievable', 'every predicate an action or axiom requires is established by an initial fact, an effect, an axiom or a stream')
    for W in worlds():
        rep.files.add(W.domain_rel)
        rep.files.add(W.stream_rel)
        domain_rules(rep, W)


def domain_rules(rep, W):
    rel = W.domain_rel
    conf, pose = W.role('atconf'), W.role('atpose')
    held, free = W.role('atgrasp', 'holding'), W.role('handempty', 'hfree', 'handfree', 'armempty')
    kin = W.role('kin')
    if None in (conf, pose, held, free, kin):
        raise AnchorMissing('state predicates of %s' % rel)
    for y in W.derived:
        head = y[1]
        scope = set(variables(head[1:]))
        todo = [(y[2], scope)]
        check_literal(rep, 'declared', W, rel, 'axiom %s' % head[0], Lit(head[0], variables(head[1:]), True, head.line), scope)
        while todo:
            x, sc = todo.pop()
            if not isinstance(x, list) or not x:
                continue
            if x[0] in ('exists', 'forall'):
                todo.append((x[2], sc | set(variables(x[1]))))
            elif x[0] in ('and', 'or', 'not', 'imply'):
                todo += [(z, sc) for z in x[1:]]
            else:
                check_literal(rep, 'declared', W, rel, 'axiom %s' % head[0], Lit(x[0], [a for a in x[1:] if isinstance(a, str)], True, x.line), sc)
    mot = motions(W)
    names = [a.name for a in W.actions]
    rep.ob('declared', '%s action names' % rel, len(set(names)) == len(names), rel, 'two actions share a name')
    movers = []
    for a in W.actions:
        rep.count('actions')
        w = '%s:%d' % (rel, a.line)
        own = 'action %s' % a.name
        rep.ob('declared', '%s %s parameters' % (rel, own), len(set(a.params)) == len(a.params), w, '%s declares a parameter twice' % own)
        quantified = set()
        for raw, _ in a.raw:
            st = [raw]
            while st:
                x = st.pop()
                if isinstance(x, list):
                    if x and x[0] in ('exists', 'forall') and len(x) > 1:
                        quantified |= set(variables(x[1]))
                    st += [z for z in x if isinstance(z, list)]
        for l in a.all:
            check_literal(rep, 'declared', W, rel, own, l, set(a.params) | quantified)
            rep.count('literals')

        def ob(rule, what, ok, detail):
            key = '%s %s: %s' % (rel, own, what)
            if a.odd and not ok:
                rep.ob(rule, key, None, w, 'quantified or conditional formula: %s' % detail)
            else:
                rep.ob(rule, key, ok, w, '%s: %s' % (own, detail))
        of = lambda ls, p: [l for l in ls if l.pred == p]
        prekeys = {l.key for l in a.pre}
        delkeys = {l.key for l in a.dele}
        used = lambda l: l.key in prekeys and l.key in delkeys
        # configurations
        moved = None
        for l in of(a.add, conf):
            v, q = l.args[:-1], l.args[-1]
            prev = [x for x in of(a.dele, conf) if x.args[:-1] == v and used(x) and x.args[-1] != q]
            ob('one configuration', 'reaches %s' % q, len(prev) == 1 and len([x for x in of(a.add, conf) if x.args[:-1] == v]) == 1,
               'adds %r without requiring and deleting the previous configuration' % l)
            if prev:
                moved = (prev[0].args[-1], q)
        for l in of(a.dele, conf):
            ob('one configuration', 'leaves %s' % l.args[-1], l.key in prekeys and any(x.args[:-1] == l.args[:-1] for x in of(a.add, conf)),
               'deletes %r without %s' % (l, 'requiring it' if l.key not in prekeys else 'a new configuration'))
        # objects
        obj = lambda l: l.args[0] if l.args else None
        for l in of(a.add, pose):
            o = obj(l)
            ok = any(obj(x) == o and used(x) for x in of(a.dele, held)) or any(obj(x) == o and used(x) for x in of(a.dele, pose))
            ob('pose or held', 'puts %r' % l, ok and len([x for x in of(a.add, pose) if obj(x) == o]) == 1,
               'adds %r without requiring and deleting that %s is held' % (l, o))
        for l in of(a.add, held):
            o = obj(l)
            ob('pose or held', 'holds %r' % l, any(obj(x) == o and used(x) for x in of(a.dele, pose)),
               'adds %r without requiring and deleting the pose of %s' % (l, o))
            ob('hand free iff nothing held', 'holds %r' % l, any(used(x) for x in of(a.dele, free)) and not of(a.add, free) and
               len(of(a.add, held)) == 1, 'adds %r without requiring and deleting the free hand' % l)
        for l in of(a.dele, held):
            o = obj(l)
            ob('pose or held', 'releases %r' % l, l.key in prekeys and any(obj(x) == o for x in of(a.add, pose)),
               'deletes %r without %s' % (l, 'requiring it' if l.key not in prekeys else 'giving the object a pose'))
            ob('hand free iff nothing held', 'releases %r' % l, bool(of(a.add, free)), 'deletes %r and leaves the hand occupied' % l)
        for l in of(a.dele, pose):
            o = obj(l)
            ob('pose or held', 'lifts %r' % l, l.key in prekeys and any(obj(x) == o for x in of(a.add, held) + of(a.add, pose)),
               'deletes %r without %s' % (l, 'requiring it' if l.key not in prekeys else 'holding the object'))
        for l in of(a.add, free):
            ob('hand free iff nothing held', 'frees the hand', any(used(x) for x in of(a.dele, held)), 'frees the hand while nothing held is put down')
        for l in of(a.dele, free):
            ob('hand free iff nothing held', 'occupies the hand', bool(of(a.add, held)), 'occupies the hand while nothing is picked')
        # motion
        if moved is not None:
            movers.append(a)
            rep.count('motions')
            cand = [l for l in a.pre if l.pred in mot and len(l.args) == W.preds.get(l.pred)]
            good, why = False, 'requires no certified motion'
            for l in cand:
                s, e, carried, _ = mot[l.pred]
                if (l.args[s], l.args[e]) != moved:
                    why = 'moves from %s to %s, certified is %r' % (moved + (l,))
                    continue
                if carried:
                    what = tuple(l.args[i] for i in carried)
                    if not any(x.args[:len(what)] == what for x in of(a.pre, held)):
                        why = 'the certified motion %r carries %s, which is not required to be held' % (l, ' '.join(what))
                        continue
                elif not of(a.pre, free):
                    why = 'the certified motion %r carries nothing, and the hand need not be free' % l
                    continue
                good = True
            ob('certified motion', 'moves %s to %s' % moved, good, why)
        # kinematics
        at = moved[1] if moved else next((l.args[-1] for l in of(a.pre, conf)), None)
        names_ = [p.lstrip('?') for p in W.params[kin]]
        for l in of(a.add, held) + of(a.dele, held):
            o = obj(l)
            ps = [x for x in (of(a.dele, pose) if l in a.add else of(a.add, pose)) if obj(x) == o]
            if not ps or 'o' not in names_ or 'p' not in names_ or 'q' not in names_:
                continue
            want = {'o': o, 'p': ps[0].args[-1], 'q': at}
            if 'g' in names_ and len(l.args) > 1:
                want['g'] = l.args[1]
            ok = any(all(x.args[names_.index(r)] == v for r, v in want.items()) for x in of(a.pre, kin) if len(x.args) == len(names_))
            ob('certified kinematics', '%s %s' % ('picks' if l in a.add else 'places', o), ok,
               'no certified kinematics of %s' % ' '.join('%s=%s' % i for i in sorted(want.items(), key=lambda i: i[0])))
    # permission
    gates = [p for p, k in W.preds.items() if p != free and movers and any(l.pred == p for x in W.actions for l in x.add + x.dele)
             and k == 0 and any(l.pred == p for m in movers for l in m.pre)]
    for p in gates:
        for a in W.actions:
            w = '%s:%d' % (rel, a.line)
            key = '%s action %s: %s' % (rel, a.name, p)
            if a in movers:
                rep.ob('permission to move', key, any(l.pred == p for l in a.pre) and any(l.pred == p for l in a.dele) and
                       not any(l.pred == p for l in a.add), w, 'action %s moves without using up (%s)' % (a.name, p))
            elif any(l.pred == held for l in a.add + a.dele):
                rep.ob('permission to move', key, any(l.pred == p for l in a.add), w, 'no motion can follow action %s: (%s) is not renewed' % (a.name, p))
    # achievability
    given = {l.pred for a in W.actions for l in a.add} | W.derived_names | {l.pred for s in W.streams for l in s.certified}
    given |= {f[0] for f in initial_facts(W)[0]}
    for a in W.actions:
        for l in a.pre:
            rep.ob('achievable', '%s action %s needs %s' % (rel, a.name, l.pred), l.pred in given, '%s:%d' % (rel, l.line),
                   'nothing ever establishes %s, which action %s requires' % (l.pred, a.name))


# ------------------------------------------------------------------------------------------------ facts of a problem

_flow = []


def flow():
    if not _flow:
        _flow.append(Flow())
    return _flow[0]


def problem_calls(W, F):
    """calls that build the planning problem of a world"""
    out = []
    for node, sc, _, _ in F.calls.values():
        f = node.func
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if n == 'PDDLProblem' and os.path.dirname(sc.module.rel) == W.dir and (node.args or node.keywords):
            out.append((node, sc))
    if not out:
        raise AnchorMissing('planning problem of %s' % W.dir)
    return out


FIELDS = ('domain_pddl', 'constant_map', 'stream_pddl', 'stream_map', 'init', 'goal')


def field(node, name):
    i = FIELDS.index(name)
    if i < len(node.args) and not any(isinstance(a, ast.Starred) for a in node.args[:i + 1]):
        return node.args[i]
    return next((k.value for k in node.keywords if k.arg == name), None)


def collect(F, e, sc, seen=None):
    """tuples and lists that an expression may hold, through lists, conjunction builders and local names"""
    seen = set() if seen is None else seen
    out, todo = set(), set(F.ev(e, sc))
    if isinstance(e, ast.Call):
        for a in e.args:
            out |= collect(F, a.value if isinstance(a, ast.Starred) else a, sc, seen)
    elif isinstance(e, ast.Name) and not todo and e.id not in seen:
        seen.add(e.id)
        for n in ast.walk(sc.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                out |= collect(F, n.value, sc, seen)
    done = set()
    while todo:
        v = todo.pop()
        if v in done or v[0] not in ('tup', 'list'):
            continue
        done.add(v)
        out.add(v)
        if v[0] == 'list' or not heads(F, v):
            todo |= F.items({v})
    return out


def heads(F, v):
    return {c[1].lower() for c in F.slot({v}, 0) if c[0] == 'c' and isinstance(c[1], str)}


def arity(F, v):
    n = F.nodes.get(v[1])
    if isinstance(n, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.elts):
        return len(n.elts)
    if v[0] == 'list' and isinstance(n, ast.List) and not any(isinstance(e, ast.Starred) for e in n.elts):
        return len(n.elts)
    return None


CONNECT = {'and', 'or', 'not', 'exists', 'forall', 'imply', 'when', 'minimize', 'increase', 'equal', '='}


def initial_facts(W):
    """([(predicate, tuple value, node)] of the initial state, ... of the goal, scope)"""
    F = flow()
    init, goal = [], []
    for node, sc in problem_calls(W, F):
        for out, name in ((init, 'init'), (goal, 'goal')):
            e = field(node, name)
            if e is None:
                continue
            for v in collect(F, e, sc):
                hs = heads(F, v)
                n = F.nodes.get(v[1])
                if v[0] == 'tup':
                    for h in hs - CONNECT:
                        out.append((h, v, n))
                elif v[0] == 'list' and isinstance(n, ast.List) and n.elts and isinstance(n.elts[0], ast.Constant) and isinstance(n.elts[0].value, str) \
                        and n.elts[0].value.lower() not in CONNECT and not any(isinstance(e, ast.Tuple) for e in n.elts):
                    out.append((n.elts[0].value.lower(), v, n))
    if not init:
        raise AnchorMissing('initial facts of %s' % W.dir)
    return init, goal


# ------------------------------------------------------------------------------------------------ streams of a problem

PRM = 'nonasymptotic.prm'
SPEC = 'pddlstream_from_problem'


def opaque_maker(name):
    def k(I, st, args, kw, node):
        r = I.new_obj(name, [I.closed(st, a) for a in args], kw, node, st)
        I.event(st, 'make:' + name, None, args, kw, node, r)
        return r
    return k


def kind_of(f, a):
    """flag of a parameter, from its default: booleans, numbers, anything else"""
    ds = dict(zip([x.arg for x in f.args.args[len(f.args.args) - len(f.args.defaults):]], f.args.defaults))
    v = ds.get(a)
    if isinstance(v, ast.Constant):
        if isinstance(v.value, bool):
            return 'b'
        if isinstance(v.value, int):
            return 'i'
        if isinstance(v.value, float):
            return 'x'
    return 'o'


COUNTS = {'min_samples': 'i', 'max_samples': 'i'}


class Problem:
    """the planning problem of a world, built symbol by symbol: its declarations, the streams registered for it, and the
    implementations they were registered with"""

    def __init__(self, W, keep=()):
        self.W = W
        rp = repo()
        self.mod = W.dir.replace('/', '.') + '.run'
        self.R = Run(self.mod)
        I = self.I = self.R.I
        self.attrs = []
        F = flow()
        node, sc = problem_calls(W, F)[0]
        f = sc.node
        while isinstance(f, ast.Lambda) or not hasattr(f, 'name'):
            raise AnchorMissing('function that builds the planning problem of %s' % W.dir)
        if '.' in getattr(f, '_qual', f.name):
            raise AnchorMissing('function that builds the planning problem of %s' % W.dir)
        self.func = f
        self.where = '%s:%d' % (sc.module.rel, node.lineno)
        self.rel = sc.module.rel
        I.contract_funcs.update(self.contracts())
        self.hook()
        self.value = self.R.call(sc.module.name, f.name, *[sym(a.arg, COUNTS.get(a.arg) or kind_of(f, a.arg)) for a in f.args.args])
        ev = [e for e in I.events if e.name.endswith('PDDLProblem')]
        if len(ev) != 1:
            raise AnchorMissing('planning problem of %s' % W.dir)
        self.event = ev[0]
        self.fields = dict(zip(FIELDS, ev[0].args))
        self.fields.update(ev[0].kw)

    def contracts(self):
        """what the problem is built from and the analysis does not look into"""
        rp = repo()
        out = {}
        for c in rp.module(PRM).classes:
            out[(PRM, c)] = opaque_maker('planner')
        for m in rp.modules.values():
            if os.path.dirname(m.rel) != self.W.dir:
                continue
            for q, c in m.classes.items():
                if any(ast.unparse(b).split('.')[-1] == 'Environment' for b in c.bases):
                    out[(m.name, q)] = opaque_maker('environment')
            for g in m.tree.body:
                if isinstance(g, ast.ClassDef) and (m.name, g.name) not in out and any(
                        isinstance(z, ast.FunctionDef) and z.name == '__init__' for z in g.body):
                    out[(m.name, g.name)] = opaque_maker(g.name)
                if isinstance(g, ast.FunctionDef) and g.name == 'get_ik_fn':
                    out[(m.name, g.name)] = opaque_maker(g.name)
                if isinstance(g, ast.FunctionDef) and any(isinstance(z, (ast.Yield, ast.YieldFrom)) for z in ast.walk(g)):
                    out[(m.name, g.name)] = opaque_maker(g.name)

        def bound(I, st, args, kw, node):
            r = Tup([sym('bound samples', 'i'), sym('bound radius', 'x')])
            I.event(st, 'bound', None, args, kw, node, r)
            return r
        out[('nonasymptotic.bound', 'compute_numerical_bound')] = bound

        def copied(I, st, args, kw, node):
            v = I.resolve(args[0], st.pc)
            if isinstance(v, T):
                r = I.new_obj('copy', [v], {}, node, st)
                I.event(st, 'copy', None, args, kw, node, r)
                return r
            from .extmodels import EXT
            return EXT['copy.deepcopy'](I, st, args, kw, node)
        out['copy.deepcopy'] = out['copy.copy'] = copied
        return out

    def hook(self):
        def seen(I, st, o, name, node):
            if isinstance(o, T):
                self.attrs.append((o, name, node))
            return None
        self.I.attr_hook = seen

    def produced(self, v, tail):
        """event of the external call whose result is v"""
        v = self.R.closed(v)
        es = [e for e in self.I.events if e.result is not None and isinstance(e.result, T) and e.result is v]
        return next((e for e in es if tail is None or e.name.split('.')[-1] == tail), None)

    def stream_map(self):
        """[(name, adapter, implementation, condition)] or None"""
        d = self.fields.get('stream_map')
        d = self.I.resolve(d, self.R.st.pc) if d is not None else None
        if not isinstance(d, DictRef):
            return None
        dv = self.R.st.cells[('D', d.id)]
        if dv.phi is not None:
            return None
        out = []
        for k, x, c in dv.items:
            if not (isinstance(k, T) and k.op == 'k' and k.args[0] == 'str'):
                return None
            e = self.produced(x, None) if isinstance(x, T) else None
            out.append((k.args[1].lower(), e.name.split('.')[-1] if e is not None else None, e.args[0] if e is not None and e.args else None, c))
        return out


def results(v):
    """[(condition, value)] of a returned value"""
    if isinstance(v, Choice):
        return [(andd(v.cond, g), y) for g, y in results(v.a)] + [(andd(nott(v.cond), g), y) for g, y in results(v.b)]
    if isinstance(v, T) and v.op == 'ite':
        return [(andd(v.args[0], g), y) for g, y in results(v.args[1])] + [(andd(nott(v.args[0]), g), y) for g, y in results(v.args[2])]
    return [(TRUE, v)]


def members(m, cls):
    c = m.classes.get(cls)
    if c is None or c.bases and any(ast.unparse(b) != 'object' for b in c.bases):
        return None
    out = set()
    for n in ast.walk(c):
        if isinstance(n, ast.FunctionDef):
            out.add(n.name)
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Store):
            out.add(n.attr)
        if isinstance(n, ast.Assign) and n in c.body:
            out |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        if isinstance(n, ast.AnnAssign) and n in c.body and isinstance(n.target, ast.Name):
            out.add(n.target.id)
    return out


def classes_at(W, F, facts):
    """(predicate, position) -> the repository's classes of the values initial facts put there"""
    out = {}
    for p, v, n in facts:
        k = arity(F, v)
        for i in range(1, k or 0):
            out.setdefault((p, i - 1), set()).update(x[1] for x in F.slot({v}, i) if x[0] == 'inst')
    return out


def T02(rep):
    rep.rule('facts', 'initial facts and goals use declared predicates (or predicates the streams ask for) with their number of arguments')
    rep.rule('kinds', 'every predicate position holds values of one kind: configurations, poses and grasps are never exchanged')
    rep.rule('kinematics', 'an initial kinematics fact names the object, pose and grasp its configuration was computed for')
    rep.rule('files', 'the problem reads its own domain file as the domain and its own stream file as the streams')
    rep.rule('registered', 'exactly the declared streams are registered, each once and unconditionally')
    rep.rule('declaration', 'a stream certifies and asks for declared facts about its own inputs and outputs')
    rep.rule('inputs', 'an implementation accepts the declared inputs in their order, and fluents exactly if they are declared')
    rep.rule('outputs', 'an implementation returns the declared number of outputs or nothing, and returns outputs in some case')
    rep.rule('fluents', 'an implementation accepts every declared fluent')
    for W in worlds():
        rep.files.add(W.domain_rel)
        rep.files.add(W.stream_rel)
        fact_rules(rep, W)
        rep.guard('registered', W.dir, lambda: stream_rules(rep, W), W.dir)


def fact_rules(rep, W):
    F = flow()
    init, goal = initial_facts(W)
    known = dict(W.preds)
    asked = {}
    for s in W.streams:
        for l in s.domain + s.certified:
            if l.pred not in known:
                asked.setdefault(l.pred, len(l.args))
    rel = W.domain_rel
    for where, facts in (('initial', init), ('goal', goal)):
        seen_arity = {}
        for p, v, n in facts:
            k = arity(F, v)
            w = '%s/run.py:%d' % (W.dir, getattr(n, 'lineno', 0))
            txt = ' '.join(ast.unparse(n).split())[:60] if n is not None else p
            key = '%s %s fact %s' % (W.dir, where, txt)
            rep.count('facts')
            want = known.get(p, asked.get(p))
            if k is None:
                rep.ob('facts', key, None, w, 'number of arguments not fixed')
            elif want is None:
                # neither declared nor asked for: only its own consistency can be judged
                a = seen_arity.setdefault(p, k)
                if where == 'goal':
                    rep.ob('facts', key, False, w, 'the goal names the undeclared predicate %s' % p)
                else:
                    rep.ob('facts', key, a == k, w, '%s is given with %d and with %d arguments' % (p, a - 1, k - 1))
            else:
                rep.ob('facts', key, k - 1 == want, w, '%s has %d arguments, declared with %d' % (p, k - 1, want))
    # kinds of values
    at_ = classes_at(W, F, init)
    roles = {}
    for (p, i), cs in at_.items():
        if p in W.params and i < len(W.params[p]):
            roles.setdefault(W.params[p][i].rstrip('0123456789'), []).append((p, i, frozenset(cs)))
    for p, v, n in init + goal:
        k = arity(F, v)
        for i in range(1, k or 0):
            if p not in W.params or i - 1 >= len(W.params[p]):
                continue
            r = W.params[p][i - 1].rstrip('0123456789')
            mine = {x[1] for x in F.slot({v}, i) if x[0] == 'inst'}
            rest = set()
            others = set()
            for q, u, m in init:
                ku = arity(F, u)
                for j in range(1, ku or 0):
                    if q in W.params and j - 1 < len(W.params[q]) and not (u == v and j == i):
                        c = {x[1] for x in F.slot({u}, j) if x[0] == 'inst'}
                        if W.params[q][j - 1].rstrip('0123456789') == r:
                            rest |= c
                        else:
                            others |= c
            txt = ' '.join(ast.unparse(n).split())[:60]
            if not mine or not rest and not (len([1 for q, u, m in init if u != v for j in range(len(W.params.get(q, ()))) if W.params[q][j].rstrip('0123456789') == r]) and mine <= others):
                continue
            rep.ob('kinds', '%s fact %s argument %d' % (W.dir, txt, i), bool(mine & rest) or not mine & others,
                   '%s/run.py:%d' % (W.dir, n.lineno), 'argument %d of %s is of another kind than %s elsewhere' % (i, txt, r))
    kin = W.role('kin')
    for p, v, n in init:
        if p == kin and isinstance(n, ast.Tuple):
            kinematics_fact(rep, W, F, n)


def kinematics_fact(rep, W, F, n):
    """the configuration in a kinematics fact was computed for the object, pose and grasp of the fact"""
    names = [x.lstrip('?') for x in W.params[W.role('kin')]]
    el = dict(zip(names, n.elts[1:]))
    key = '%s fact %s' % (W.dir, ' '.join(ast.unparse(n).split())[:60])
    f = n
    while not isinstance(f, (ast.FunctionDef, ast.Module)):
        f = f._parent
    m = next((m for m in repo().modules.values() if m.tree is root(n)), None)
    where = '%s:%d' % (m.rel if m else W.dir, n.lineno)

    def value(e, at, depth=0):
        """the expression a local name stands for at a statement: its only assignment that can reach it"""
        if not isinstance(e, ast.Name) or depth > 6:
            return e
        best = None
        for a in ast.walk(f):
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and a.targets[0].id == e.id \
                    and a.lineno <= at.lineno and reaches(a, at):
                if best is None or a.lineno > best.lineno:
                    best = a
        return best.value if best is not None else e

    def origin(e, at):
        for _ in range(6):
            x = value(e, at)
            if not isinstance(x, ast.Name) or x is e:
                break
            e = x
        return e
    q = value(el.get('q'), n)
    if not isinstance(q, ast.Call) or not isinstance(q.func, (ast.Name, ast.Attribute)):
        rep.ob('kinematics', key, None, where, 'origin of the configuration not found')
        return
    callee = [c for node, _, cs, _ in F.calls.values() if node is q for c in cs]
    g = None
    for c in callee:
        if c[0] == 'func':
            g = F.nodes.get(c[1]) or g
    if g is None:
        nm = q.func.id if isinstance(q.func, ast.Name) else q.func.attr
        g = next((m2.functions[nm] for m2 in repo().modules.values() if os.path.dirname(m2.rel) == W.dir and nm in m2.functions), None)
    if g is None:
        rep.ob('kinematics', key, None, where, 'inverse kinematics call not resolved')
        return
    ps = [a.arg for a in g.args.args]
    got = dict(zip(ps, q.args))
    got.update({k.arg: k.value for k in q.keywords})
    for r, pname in (('o', 'body'), ('p', 'pose'), ('g', 'grasp')):
        if r not in el or pname not in got:
            continue
        a, b = origin(el[r], n), origin(got[pname], q)
        ta, tb = ast.unparse(a), ast.unparse(b)
        if ta == tb:
            ok = True
        else:
            ok = False if isinstance(a, ast.Name) and isinstance(b, ast.Name) or isinstance(el[r], ast.Name) and isinstance(got[pname], ast.Name) else None
        rep.ob('kinematics', '%s: %s' % (key, pname), ok, where,
               'the fact names %s %s, its configuration was computed for %s' % (pname, ast.unparse(el[r]), ast.unparse(got[pname])))


def root(n):
    while getattr(n, '_parent', None) is not None:
        n = n._parent
    return n


def reaches(a, at):
    """an assignment reaches a later statement: its block encloses it"""
    p = a._parent
    c = at
    while c is not None:
        if c is p:
            return True
        c = getattr(c, '_parent', None)
    return False


def stream_rules(rep, W):
    P = Problem(W)
    R, I = P.R, P.I
    rep.saw(I)
    for fld, rel in (('domain_pddl', W.domain_rel), ('stream_pddl', W.stream_rel)):
        e = P.produced(P.fields.get(fld), None) if P.fields.get(fld) is not None else None
        while e is not None and e.name.split('.')[-1] != 'get_file_path' and e.args:
            e = P.produced(e.args[0], None)
        name = None
        if e is not None and len(e.args) > 1 and isinstance(e.args[1], T) and e.args[1].op == 'k':
            name = e.args[1].args[1]
        rep.ob('files', '%s %s' % (W.dir, fld), None if name is None else os.path.normpath(os.path.join(W.dir, name)) == os.path.normpath(rel),
               P.where, 'reads %s as %s' % (name, fld))
    sm = P.stream_map()
    if sm is None:
        rep.ob('registered', '%s stream map' % W.dir, None, P.where, 'stream map not resolved')
        return
    names = [x[0] for x in sm]
    declared = {s.name: s for s in W.streams}
    for nme in sorted(set(names) | set(declared)):
        rep.ob('registered', '%s stream %s' % (W.dir, nme), names.count(nme) == 1 and nme in declared and
               all(c is TRUE for k, _, _, c in sm if k == nme), P.where,
               'stream %s is %s' % (nme, 'not declared' if nme not in declared else 'not registered' if nme not in names else 'registered conditionally or twice'))
    F = flow()
    kinds = classes_at(W, F, initial_facts(W)[0])
    for s in W.streams:
        rep.count('streams')
        w = '%s:%d' % (W.stream_rel, s.line)
        scope = set(s.inputs) | set(s.outputs)
        for l in s.certified + s.domain:
            ins = set(s.inputs) if l in s.domain else scope
            free = [a for a in l.args if a not in ins]
            ok = not free and (l.pred not in W.preds or W.preds[l.pred] == len(l.args))
            rep.ob('declaration', '%s stream %s %r' % (W.dir, s.name, l), ok, w, '%r: %s' % (
                l, 'uses %s' % ', '.join(free) if free else 'declared with %s arguments' % W.preds.get(l.pred)))
        used = {a for l in s.certified for a in l.args}
        for o in s.outputs:
            rep.ob('declaration', '%s stream %s output %s' % (W.dir, s.name, o), o in used, w, 'nothing is certified about the output %s' % o)
        for fl in s.fluents:
            rep.ob('declaration', '%s stream %s fluent %s' % (W.dir, s.name, fl), fl in W.preds, w, 'the fluent %s is not declared' % fl)
        for l in s.domain:
            made = {x.pred for t in W.streams for x in t.certified} | {x[0] for x in initial_facts(W)[0]} | {x.pred for a in W.actions for x in a.add} | W.derived_names
            rep.ob('declaration', '%s stream %s needs %s' % (W.dir, s.name, l.pred), l.pred in made, w, 'nothing establishes %s' % l.pred)
        for nme, adapter, impl, c in sm:
            if nme == s.name:
                implementation(rep, W, P, s, adapter, impl, kinds)


def implementation(rep, W, P, s, adapter, impl, kinds):
    R, I = P.R, P.I
    key = '%s stream %s' % (W.dir, s.name)
    if not isinstance(impl, (FuncVal, Bound)) or adapter not in ('from_fn', 'from_test'):
        rep.ob('inputs', key, None, P.where, 'implementation not resolved')
        return
    fn_ = impl if isinstance(impl, FuncVal) else impl.func
    where = '%s:%d' % (fn_.mod.rel, fn_.node.lineno)
    ins = [sym('in:' + x.lstrip('?'), 'o') for x in s.inputs]

    def run(fluents):
        st = R.fork()
        n0, a0 = R.mark(), len(P.attrs)
        kw = {}
        if fluents is not None:
            kw['fluents'] = I.list_of(st, fluents)
        v = I.call(st, impl, list(ins), kw, None)
        return v, R.since(n0), st, P.attrs[a0:]
    empty = [] if s.fluents else None
    v, ev, st, attrs = run(empty)
    bad = [e for e in ev if e.name == 'bind-error' and e.pc is not FALSE]
    rep.ob('inputs', key, not bad, where, 'the implementation does not accept (%s%s)' % (' '.join(s.inputs), ' and fluents' if s.fluents else ''))
    if bad:
        return
    # inputs are used as what they are
    known = {}
    for x, t in zip(s.inputs, ins):
        ids = set()
        for l in s.domain:
            for i, a in enumerate(l.args):
                if a == x:
                    ids |= kinds.get((l.pred, i), set())
        ms = set()
        ok = bool(ids)
        for c in ids:
            cn = flow().nodes.get(c)
            m = next((m for m in repo().modules.values() if cn is not None and m.tree is root(cn)), None)
            mm = members(m, cn.name) if m is not None and isinstance(cn, ast.ClassDef) else None
            if mm is None:
                ok = False
            else:
                ms |= mm
        known[x] = ms if ok else None
    for x, t in zip(s.inputs, ins):
        names = {n for o, n, _ in attrs if o is t}
        line = next((n_ for o, n, n_ in attrs if o is t), None)
        if known[x] is not None:
            odd = names - known[x]
            rep.ob('inputs', '%s input %s' % (key, x), not odd, where, 'uses %s of the input %s, which has no such attribute' % (', '.join(sorted(odd)), x))
        else:
            odd = {n for n in names for y, u in zip(s.inputs, ins) if known[y] is not None and n in known[y] and not any(o is u for o, _, _ in attrs)}
            rep.ob('inputs', '%s input %s' % (key, x), not odd, where, 'uses the input %s as if it were another one (%s)' % (x, ', '.join(sorted(odd))))
    # outputs
    some = False
    made = {c for m in repo().modules.values() if os.path.dirname(m.rel) == W.dir for c, n in m.classes.items()
            if not any(ast.unparse(b).split('.')[-1] in ('tuple', 'list', 'NamedTuple', 'Output') for b in n.bases)}
    for g, x in results(v):
        if g is FALSE or x is NONE:
            continue
        k = None
        if isinstance(x, Tup):
            k = len(x.items)
        elif isinstance(x, T) and x.op == 'tup':
            k = len(x.args)
        elif isinstance(x, ListRef):
            k = cval(I.length(st, x))
        elif isinstance(x, T):
            e = next((e for e in ev if e.result is x and e.name.split('.')[-1] == 'Output'), None)
            k = len(e.args) if e is not None else None
            if e is None and x.op == 'obj' and (x.args[0] in made or any(z.name.startswith('setattr:') and z.recv is x for z in ev)):
                k = 'no tuple of'
        some = True
        if adapter == 'from_test':
            rep.ob('outputs', key, not s.outputs, where, 'registered as a test, declared with %d outputs' % len(s.outputs))
        else:
            rep.ob('outputs', '%s returns %s' % (key, show(R.closed(x))[:60] if k is None else k), None if k is None else k == len(s.outputs), where,
                   'returns %s outputs, declared with %d' % (k, len(s.outputs)))
    rep.ob('outputs', '%s in some case' % key, some, where, 'never returns outputs')
    # fluents
    if s.fluents:
        site = lambda es: {(e.file, e.line) for e in es if e.name == 'raise' and e.pc is not FALSE}
        base = site(ev)
        for f in s.fluents:
            one = [Tup([string(f)] + [sym('fluent%d' % i, 'o') for i in range(W.preds.get(f, 0))])]
            v2, ev2, _, _ = run(one)
            new = sorted(site(ev2) - base)
            rep.ob('fluents', '%s fluent %s' % (key, f), not new and not [e for e in ev2 if e.name == 'bind-error'], where,
                   'a fluent (%s …) is rejected at %s' % (f, ', '.join('%s:%d' % x for x in new)))


# ------------------------------------------------------------------------------------------------ T03

NPATH = sym('path length', 'ni')


def call_as(name):
    return lambda I, st, args, kw, node: fn(name, *[I.closed(st, a) for a in args], *[_mk('tup', string(k), I.closed(st, v)) for k, v in sorted(kw.items())])


def vector(I, st, k, f):
    v = fresh_var()
    return I.new_arr(st, [Ax([v], [num(k)])], f(v))


class MotionProblem(Problem):
    """a planning problem with models of what its motion streams are built on"""

    def __init__(self, W, ik_fails=FALSE):
        self.ik_fails = ik_fails
        self.dim = 2 if W.name.startswith('turtlebot') else 6
        super().__init__(W)
        I = self.I

        def query(I, st, args, kw, node):
            v, w = fresh_var(), fresh_var()
            r = Tup([I.call_term('cost'), I.new_arr(st, [Ax([v], [NPATH]), Ax([w], [num(self.dim)])], at(sym('found path', 'x'), v, w))])
            I.event(st, 'query', args[0], args[1:], kw, node, r)
            return r

        def assign(I, st, args, kw, node):
            I.event(st, '.assign', args[0], args[1:], kw, node)
            return NONE

        def attachment(I, st, args, kw, node):
            return fn('attachment', I.closed(st, args[0]))
        I.contract_methods[('*', 'query_best_solution')] = query
        I.contract_methods[('*', 'assign')] = assign
        I.contract_methods[('*', 'attachment')] = attachment

    def contracts(self):
        out = super().contracts()
        rp = repo()
        P = 'pybullet_tools.utils.'
        for m in rp.modules.values():
            if os.path.dirname(m.rel) != self.W.dir:
                continue
            for g in m.tree.body:
                if isinstance(g, ast.FunctionDef) and g.name == 'interpolate_vectors':
                    out[(m.name, g.name)] = lambda I, st, args, kw, node: fn('interpolated', I.closed(st, args[0] if args else kw.get('vectors')))
                if isinstance(g, ast.FunctionDef) and g.name == 'get_ik_fn':
                    def ik(I, st, args, kw, node, g=g):
                        b = dict(zip([a.arg for a in g.args.args], args))
                        b.update(kw)
                        r = fn('ik', *[I.closed(st, b[x]) if x in b else NONE for x in ('body', 'pose', 'grasp')])
                        I.event(st, 'ik', None, args, kw, node, r)
                        if self.ik_fails is FALSE:
                            return r
                        return ite(pred('ik fails', r), NONE, r)
                    out[(m.name, g.name)] = ik
                if isinstance(g, ast.ClassDef) and g.name == 'BodyPose':
                    def body_pose(I, st, args, kw, node):
                        b = dict(zip(('body', 'pose'), args))
                        b.update(kw)
                        return fn('bodypose', *[I.closed(st, b[x]) if x in b else NONE for x in ('body', 'pose')])
                    out[(m.name, g.name)] = body_pose
        for k in ('Point', 'Euler', 'Pose'):
            out[P + k] = call_as(k)

        def oobb(I, st, args, kw, node):
            r = I.new_obj('oobb', [I.closed(st, a) for a in args], kw, node, st)
            I.event(st, 'get_oobb', None, args, kw, node, r)
            return r
        out[P + 'get_oobb'] = oobb
        out[P + 'euler_from_quat'] = lambda I, st, args, kw, node: vector(I, st, 3, lambda v: at(fn('euler', I.closed(st, args[0])), v))
        return out

    def hook(self):
        def seen(I, st, o, name, node):
            if not isinstance(o, T):
                return None
            self.attrs.append((o, name, node))
            if o.op == 'sym' and str(o.args[0]).startswith('in:q') and name in ('values', 'configuration') and self.dim == 2:
                return vector(I, st, 2, lambda v: at(_mk('attr', o, 'values'), v))
            if o.op == 'obj' and o.args[0] == 'oobb' and name == 'pose':
                return Tup([vector(I, st, 3, lambda v: at(fn('position', o), v)), fn('orientation', o)])
            return None
        self.I.attr_hook = seen


def row(I, st, v):
    """the vector an argument holds: a vector, or a batch of one"""
    a = to_arr(I, st, v)
    if a is None or any(len(x.vars) != 1 or x.guard is not TRUE for x in a.axes):
        return None
    if len(a.axes) == 2 and cval(a.axes[0].sizes[0]) == 1:
        return lam(a.axes[1].vars, a.axes[1].sizes, TRUE, subst(a.body, {a.axes[0].vars[0]: ZERO}))
    if len(a.axes) == 1:
        return lam(a.axes[0].vars, a.axes[0].sizes, TRUE, a.body)
    return None


def in_term(t, test):
    return isinstance(t, T) and any(test(x) for x in subterms(t))


def T03(rep):
    rep.rule('ends checked', 'both end configurations are checked by the environment the roadmap is built for before the roadmap grows')
    rep.rule('shape', 'the environment is that of what moves (the held object, otherwise the robot) and of the obstacles of the problem')
    rep.rule('roadmap', 'the roadmap checks motions and draws samples with that environment')
    rep.rule('query', 'the query runs from the first to the second input configuration')
    rep.rule('growth', 'each query follows a growth of the roadmap in the same round, from the smallest budget, by the growth factor, never beyond the largest')
    rep.rule('result', 'a motion is returned exactly if the query found a path')
    rep.rule('complete', 'the motion runs through the start, every waypoint of the path in order, and the goal')
    rep.rule('interpolation', 'interpolation keeps every vector in order and adds only points between neighbours')
    rep.rule('joint motion', 'a motion planned in joint space runs from the first to the second configuration, avoids the fixed and the placed objects, '
                             'moves with what is held, and exists only if the planner found one')
    for W in worlds():
        rep.files.add(W.stream_rel)
        rep.guard('result', W.dir, lambda: motion_rules(rep, W), W.dir)
        rep.guard('complete', W.dir, lambda: dropped(rep, W), W.dir)
    rep.guard('interpolation', 'interpolate_vectors', lambda: interpolation(rep), BASE)


def motion_rules(rep, W):
    P = MotionProblem(W)
    R, I = P.R, P.I
    rep.saw(I)
    sm = P.stream_map()
    if sm is None:
        rep.ob('result', '%s stream map' % W.dir, None, P.where, 'not resolved')
        return
    mot = {s.name for _, _, _, s in motions(W).values()}
    roadmaps = 0
    for s in W.streams:
        for nme, adapter, impl, c in sm:
            if nme != s.name or nme not in mot or not isinstance(impl, (FuncVal, Bound)):
                continue
            fn_ = impl if isinstance(impl, FuncVal) else impl.func
            where = '%s:%d' % (fn_.mod.rel, fn_.node.lineno)
            key = '%s stream %s' % (W.dir, s.name)
            ins = {x: sym('in:' + x.lstrip('?'), 'o') for x in s.inputs}
            st = R.fork()
            n0 = R.mark()
            kw = {}
            if s.fluents:
                kw['fluents'] = I.list_of(st, [Tup([string(f)] + [sym('placed%d %s%d' % (j, f, i), 'o') for i in range(W.preds.get(f, 0))]) for j in range(2) for f in s.fluents])
            v = I.call(st, impl, list(ins.values()), kw, None)
            ev = R.since(n0)
            rep.count('motion streams')
            if any(e.name == 'make:planner' for e in ev):
                roadmaps += 1
                rep.guard('result', key, lambda: roadmap_stream(rep, W, P, s, ins, ev, v, st, key, where), where)
            elif any(e.name.split('.')[-1] == 'plan_joint_motion' for e in ev):
                rep.guard('joint motion', key, lambda: joint_stream(rep, W, P, s, ins, ev, v, st, key, where), where)
            else:
                rep.ob('result', key, None, where, 'how the motion is planned is not recognised')
    rep.ob('result', '%s roadmap streams' % W.dir, True if roadmaps else None, W.stream_rel, 'no roadmap-based motion stream found')


def confs_of(s):
    return [i for i in s.inputs if any(l.pred == 'conf' and l.args and l.args[-1] == i for l in s.domain)]


def roadmap_stream(rep, W, P, s, ins, ev, v, st, key, where):
    R, I = P.R, P.I
    one = lambda name: [e for e in ev if e.name == name]
    queries, envs, planners = one('query'), one('make:environment'), one('make:planner')
    if len(queries) != 1 or len(envs) != 1 or len(planners) != 1:
        rep.ob('query', key, None, where, '%d queries, %d environments, %d roadmaps' % (len(queries), len(envs), len(planners)))
        return
    Q, E, PL = queries[0], envs[0], planners[0]
    q1, q2 = [ins[c] for c in confs_of(s)]
    state = lambda e: I.state_of(e) if hasattr(I, 'state_of') else st
    ends = [row(I, st, a) for a in Q.args[:2]]
    if None in ends or len(Q.args) < 2:
        rep.ob('query', key, None, Q.where(), 'end points of the query not resolved')
        return
    # ---- which configuration each end point is
    if P.dim == 2:
        refs = []
        for q in (q1, q2):
            x = fresh_var()
            refs.append(lam([x], [num(2)], TRUE, at(_mk('attr', q, 'values'), x)))
    else:
        refs, conf, held = [], None, False
        place = {}
        for e in ev:
            if e.name == '.assign' and isinstance(e.recv, T):
                if e.recv in (q1, q2):
                    conf, held = e.recv, False
                elif e.recv.op == 'fn' and e.recv.args[0] == 'attachment' or e.recv in ins.values():
                    held = True
            if e.name == 'get_oobb':
                place[e.result] = (conf if held else None, e.args[0] if e.args else None)
        for q in (q1, q2):
            os_ = [o for o, (c, b) in place.items() if c is q]
            if len(os_) != 1:
                refs.append(None)
                continue
            o = os_[0]
            x = fresh_var()
            refs.append(lam([x], [num(6)], TRUE, ite(lt(x, num(3)), at(fn('position', o), x), at(fn('euler', fn('orientation', o)), sub(x, num(3))))))
        carried = [t for y, t in ins.items() if t not in (q1, q2)]
        rep.ob('query', '%s body' % key, all(b in carried for c, b in place.values() if c is not None) and None not in refs, Q.where(),
               'the carried body is not placed at both configurations before its boxes are read')
    for i, (a, r) in enumerate(zip(ends, refs)):
        what = ('start', 'goal')[i]
        if r is None:
            rep.ob('query', '%s %s' % (key, what), None, Q.where(), 'configuration not resolved')
            continue
        t = same_vector(a, r, P.dim)
        if t is None and P.dim == 6 and in_term(a, lambda z: z.op == 'obj' and z.args[0] == 'oobb'):
            os1 = {z for z in subterms(a) if z.op == 'obj' and z.args[0] == 'oobb'}
            os2 = {z for z in subterms(r) if z.op == 'obj' and z.args[0] == 'oobb'}
            if os1 and not os1 & os2:
                t = False
        rep.ob('query', '%s %s' % (key, what), t, Q.where(), 'the query %s at %s' % (('starts', 'ends')[i], show(a)[:200]))
    # ---- ends checked
    plans = [e for e in ev if e.name in ('.grow_to_n_samples', 'query')]
    checks = [e for e in ev if e.name == '.is_motion_valid' and e.recv is E.result and len(e.args) == 2]
    first = plans[0]
    for i, a in enumerate(ends):
        what = ('start', 'goal')[i]
        ok, why = None, ''
        mine = []
        for c in checks:
            x, y = row(I, st, c.args[0]), row(I, st, c.args[1])
            if x is None or y is None:
                continue
            if same(x, a) and same(y, a):
                mine.append(c)
        if not mine:
            unclear = [c for c in checks if row(I, st, c.args[0]) is None]
            ok = None if unclear else False
            why = 'the %s is not checked before planning' % what
        else:
            ok = any(c.seq < first.seq and imp(first.pc, _mk('truth', c.result)) for c in mine)
            why = 'planning does not require that the %s is collision free' % what
        rep.ob('ends checked', '%s %s' % (key, what), ok, (mine or [first])[0].where(), why)
    # ---- environment and roadmap
    ma = {n.arg: i for i, n in enumerate(init_of(PRM, PL, W).args.args[1:])} if init_of(PRM, PL, W) is not None else {}
    got = {k: PL.args[i] for k, i in ma.items() if i < len(PL.args)}
    got.update(PL.kw)
    for par, meth in (('motion_validity_checker', 'is_motion_valid'), ('valid_state_sampler', 'sample_from_env')):
        x = got.get(par)
        ok = None if x is None or not isinstance(x, T) else x is _mk('attr', E.result, meth)
        rep.ob('roadmap', '%s %s' % (key, par), ok, PL.where(), '%s is %s' % (par, show(x)[:100] if isinstance(x, T) else x))
    shape_rules(rep, W, P, s, ins, ev, E, key, st)
    growth_rules(rep, W, P, ev, Q, PL, key)
    # ---- result
    for g, x in results(v):
        if g is FALSE:
            continue
        cond = andd(g, st.pc) if hasattr(st, 'pc') else g
        if x is NONE:
            rep.ob('result', '%s returns nothing' % key, bool(imp(cond, le(NPATH, ZERO))), where, 'returns nothing although a path was found')
        else:
            rep.ob('result', '%s returns a motion' % key, bool(imp(cond, lt(ZERO, NPATH))), where, 'returns a motion when no path was found')
    # ---- the motion
    path = lambda p: at(sym('found path', 'x'), p, None)
    if P.dim == 2:
        made = [e for e in ev if e.name.split('.')[-1] == 'create_trajectory']
        outs = [e for e in ev if e.name.split('.')[-1] == 'Output']
        if len(made) != 1 or len(outs) != 1:
            rep.ob('complete', key, None, where, '%d trajectories, %d outputs' % (len(made), len(outs)))
            return
        m = made[0]
        rep.ob('complete', '%s output' % key, len(outs[0].args) > 0 and outs[0].args[0] is m.result, outs[0].where(), 'does not return the trajectory')
        p = m.args[2] if len(m.args) > 2 else m.kw.get('path')
        t = I.closed(st, p) if p is not None else None
        r, k = fresh_var(), fresh_var()
        ref = lam([r], [add(NPATH, num(2))], TRUE, lam([k], [num(2)], TRUE, ite(eq(r, ZERO), at(_mk('attr', q1, 'values'), k), ite(
            lt(r, add(NPATH, ONE)), at(sym('found path', 'x'), sub(r, ONE), k), at(_mk('attr', q2, 'values'), k)))))
        for g, x in results(t):
            if g is FALSE:
                continue
            if isinstance(x, T) and x.op == 'fn' and x.args[0] == 'interpolated':
                x = x.args[1][0] if isinstance(x.args[1], tuple) else x.args[1]
            ok = same_rows(I, st, x, ref, P.dim)
            rep.ob('complete', '%s trajectory' % key, ok, m.where(), 'the trajectory runs through %s' % show(x)[:400])
    else:
        made = [e for e in ev if e.name == 'make:BodyPath']
        if len(made) != 1:
            rep.ob('complete', key, None, where, '%d body paths' % len(made))
            return
        waypoints(rep, W, P, s, ins, ev, made[0], st, refs, key, v)


def same_rows(I, st, a, b, n):
    """two closed lists of rows"""
    def parts(t):
        """[(length, item at)] of a closed list, None where its length depends on conditions"""
        if isinstance(t, T) and t.op == 'list':
            out = []
            for x in t.args:
                if not isinstance(x, T) or x.op != 'lam' or len(x.args[1]) != 1 or x.args[2] is not TRUE:
                    return None
                out.append((open_lam(x, [ZERO])[1][0], lambda i, x=x: open_lam(x, [i])[3]))
            return out
        if isinstance(t, T) and t.op == 'tup':
            return [(ONE, lambda i, x=x: x) for x in t.args]
        if isinstance(t, T) and t.op == 'lam' and len(t.args[1]) == 1 and t.args[2] is TRUE:
            return [(open_lam(t, [ZERO])[1][0], lambda i: open_lam(t, [i])[3])]
        return [(I.length(st, t), lambda i: at(t, i))]

    def item(t, i):
        ps = parts(t)
        if ps is None:
            return unk('item of a list with conditional items')
        off, v = ZERO, None
        out = []
        for n_, f in ps:
            out.append((add(off, n_), f(sub(i, off))))
            off = add(off, n_)
        v = out[-1][1] if out else unk('item of an empty list')
        for end, x in reversed(out[:-1]):
            v = ite(lt(i, end), x, v)
        return v

    def size(t):
        ps = parts(t)
        if ps is None:
            return None
        n_ = ZERO
        for x, _ in ps:
            n_ = add(n_, x)
        return n_
    na, nb = size(a), size(b)
    if na is None or nb is None:
        return None
    k = same(na, nb)
    if k is not True:
        return k
    r = sym('row', 'in')
    rs = [same(item(item(a, r), num(c)), item(item(b, r), num(c))) for c in range(n)]
    return False if False in rs else None if None in rs else True


def same_vector(a, b, n):
    rs = [same(at(a, num(i)), at(b, num(i))) for i in range(n)]
    return False if False in rs else None if None in rs else True


def init_of(mod, e, W):
    """constructor of the roadmap class a call names"""
    f = getattr(e.node, 'func', None)
    n = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', None)
    m = repo().module(mod)
    while n in m.classes:
        i = m.functions.get(n + '.__init__')
        if i is not None:
            return i
        b = m.classes[n].bases
        n = ast.unparse(b[0]) if b else None
    return None


def shape_rules(rep, W, P, s, ins, ev, E, key, st):
    R, I = P.R, P.I
    args = [I.closed(st, a) for a in list(E.args) + list(E.kw.values())]
    seen = set()

    def back(t):
        """input symbols and calls a value is computed from"""
        out = set()
        for z in subterms(t):
            if z.op == 'sym':
                out.add(z)
            if z.op in ('obj', 'call') and z not in seen:
                seen.add(z)
                e = next((e for e in I.events if isinstance(e.result, T) and (e.result is z or e.result.args[:2] == z.args[:2] and z.op == e.result.op)), None)
                if e is not None:
                    for a in list(e.args) + list(e.kw.values()):
                        out |= back(I.closed(st, a))
                    if isinstance(e.recv, T):
                        out |= back(e.recv)
        return out
    named = dict(E.kw)
    f = class_init(W, E)
    if f is not None:
        named.update(dict(zip([a.arg for a in f.args.args[1:]], E.args)))
    rob = robots(s)
    confs = set(confs_of(s))
    objs = [i for i in s.inputs if i not in rob and i not in confs]
    moving = None
    for k in named:
        if 'shape' in k or k.startswith('start'):
            moving = k
    obst = next((k for k in named if 'obstacle' in k), None)
    if moving is None or obst is None:
        rep.ob('shape', key, None, E.where(), 'parameters of the environment not recognised')
        return
    src = back(I.closed(st, named[moving]))
    want = ins[objs[0]] if objs else ins[sorted(rob)[0]] if rob else None
    wrong = [t for x, t in ins.items() if x not in confs and t is not want]
    if want is not None:
        rep.ob('shape', '%s moving body' % key, want in src and not any(t in src for t in wrong), E.where(),
               'the shape of what moves is computed from %s' % ', '.join(sorted(show(x) for x in src)))
    os_ = back(I.closed(st, named[obst]))
    t = I.closed(st, named[obst])
    pat = lambda z: z.op == 'attr' and z.args[1] == 'obstacles' or z.op == 'sym' and 'obstacle' in str(z.args[0])
    ok = in_term(t, pat) or any(in_term(I.closed(st, a), pat) for e in I.events if e.name == 'get_oobb' for a in e.args if in_term(t, lambda z: z.op == 'obj' and z.args[:2] == e.result.args[:2]))
    if not ok:
        syms = {str(z.args[0]) for z in os_}
        ok = None
        if in_term(t, lambda z: z.op == 'fn' and z.args[0] == 'unk') is False and not any('obstacle' in x or 'problem' in x or 'fixed' in x for x in syms):
            ok = None
    if ok and t.op == 'at' and t.args[0].op == 'fn' and t.args[0].args[0] == 'mapping' and want is not None:
        rep.ob('shape', '%s obstacles of the object' % key, t.args[1] is want if t.args[1] in ins.values() else None, E.where(),
               'the obstacles are those of %s' % show(t.args[1])[:100])
        keys = {z.args[0].args[0] for z in subterms(t.args[0]) if z.op == 'tup' and len(z.args) == 2 and isinstance(z.args[0], T) and z.args[0].op == 'at' and z.args[0].args[0].op == 'sym'}
        rep.ob('shape', '%s obstacles of every object' % key, keys == {sym('movable', 'o')} if len(keys) == 1 else None, E.where(),
               'obstacles are given for the members of %s' % ', '.join(show(k) for k in keys))
    rep.ob('shape', '%s obstacles' % key, ok, E.where(), 'the obstacles are %s' % show(t)[:200])


def class_init(W, e):
    f = getattr(e.node, 'func', None)
    n = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', None)
    for m in repo().modules.values():
        if os.path.dirname(m.rel) == W.dir and n in m.classes:
            return m.functions.get(n + '.__init__')
    return None


def growth_rules(rep, W, P, ev, Q, PL, key):
    R, I = P.R, P.I
    grows = [e for e in ev if e.name == '.grow_to_n_samples' and e.recv is PL.result]
    rep.ob('query', '%s roadmap' % key, Q.recv is PL.result, Q.where(), 'the query runs on another roadmap than the one built for the problem')
    if not Q.whiles:
        rep.ob('growth', key, None, Q.where(), 'the query is not in a loop')
        return
    wid = Q.whiles[-1]
    w = next((w for w in I.whiles if w.id == wid), None)
    mine = [e for e in grows if e.whiles and e.whiles[-1] == wid]
    before = [e for e in mine if e.seq < Q.seq and imp(Q.pc, e.pc)]
    rep.ob('growth', '%s order' % key, bool(before), Q.where(), 'a query is not preceded by a growth of the roadmap in its round')
    adaptive = sym('adaptive_n', 'b')
    top = ite(adaptive, sym('bound samples', 'i'), sym('max_samples', 'i'))
    low = ite(adaptive, sub(sym('bound samples', 'i'), ONE), sym('min_samples', 'i'))
    for e in before[:1]:
        a = e.args[0] if e.args else None
        if not isinstance(a, T):
            rep.ob('growth', '%s budget' % key, None, e.where(), 'number of samples not resolved')
            continue
        phis = [(n, p) for n, p in w.phis.items() if isinstance(p, T) and in_term(a, lambda z: z is p)]
        if len(phis) != 1:
            rep.ob('growth', '%s schedule' % key, None, e.where(), 'budget %s' % show(a)[:100])
            continue
        n, p = phis[0]
        words = {p, adaptive, sym('bound samples', 'i'), sym('max_samples', 'i'), sym('min_samples', 'i')}
        rule = [c for c in (e.pc.args if e.pc.op == 'and' else (e.pc,)) if all(z in words for z in subterms(c) if z.op in ('sym', 'call', 'fn', 'unk', 'truth'))]
        over = le(add(top, ONE), p)
        if imp(e.pc, lt(p, add(top, ONE))):
            ok = True
        else:
            ok = False if teval.witness(andd(lt(ZERO, sym('max_samples', 'i')), lt(ZERO, sym('bound samples', 'i')), lt(ZERO, p), over, *rule)) else None
        rep.ob('growth', '%s largest budget' % key, ok, e.where(), 'grows to %s under %s, at most %s allowed' % (show(a)[:120], show(andd(*rule))[:200], show(top)[:120]))
        rep.ob('growth', '%s budget' % key, same(a, toint(p)), e.where(), 'grows to %s' % show(a)[:100])
        pre, post = w.pre.get(n), w.post.cells.get(n) if w.post is not None else None
        rep.ob('growth', '%s smallest budget' % key, same(pre, low) if isinstance(pre, T) else None, e.where(),
               'starts at %s, expected %s' % (show(pre)[:120] if isinstance(pre, T) else pre, show(low)[:120]))
        rep.ob('growth', '%s factor' % key, same(post, mul(p, sym('factor', 'x'))) if isinstance(post, T) else None, e.where(),
               'the next budget is %s' % (show(post)[:120] if isinstance(post, T) else post))
        goes = andd(*rule)
        stop = teval.witness(andd(le(p, top), lt(ZERO, p), lt(ZERO, top), nott(goes)))
        rep.ob('growth', '%s every budget' % key, True if imp(le(p, top), lt(ZERO, p), goes) else False if stop else None, e.where(),
               'a budget of at most the largest is not tried: %s' % show(goes)[:200])


def joint_stream(rep, W, P, s, ins, ev, v, st, key, where):
    """a motion planned in joint space"""
    R, I = P.R, P.I
    plans = [e for e in ev if e.name.split('.')[-1] == 'plan_joint_motion']
    paths = [e for e in ev if e.name == 'make:BodyPath']
    if len(plans) != 1 or len(paths) != 1:
        rep.ob('joint motion', key, None, where, '%d planner calls, %d paths' % (len(plans), len(paths)))
        return
    L, B = plans[0], paths[0]
    q1, q2 = [ins[c] for c in confs_of(s)]
    held = [t for x, t in ins.items() if t not in (q1, q2) and any(l.pred == 'grasp' and l.args and l.args[-1] == x for l in s.domain)]
    names = dict(zip(('body', 'joints', 'end_conf', 'obstacles', 'attachments'), L.args))
    names.update(L.kw)
    end = I.closed(st, names.get('end_conf')) if names.get('end_conf') is not None else None
    other = lambda t, want: None if not isinstance(t, T) or t.op != 'attr' or t.args[0] not in ins.values() else t is want
    confs = {_mk('attr', q, n) for q in (q1, q2) for n in ('configuration', 'values')}
    rep.ob('joint motion', '%s goal' % key, None if end not in confs else in_term(end, lambda z: z is q2), L.where(), 'plans to %s' % show(end))
    before = [e for e in ev if e.name == '.assign' and e.recv in (q1, q2) and e.seq < L.seq]
    rep.ob('joint motion', '%s start' % key, bool(before) and before[-1].recv is q1 and bool(imp(L.pc, before[-1].pc)), L.where(),
           'the robot is not placed at the first configuration before the motion is planned from where it is')
    obs = names.get('obstacles')
    t = I.closed(st, obs) if obs is not None else None
    fixed = t is not None and in_term(t, lambda z: z is sym('fixed', 'o'))
    rep.ob('joint motion', '%s fixed objects' % key, fixed or (None if t is not None and in_term(t, lambda z: z.op == 'unk') else False), L.where(),
           'the fixed objects are no obstacles: %s' % (show(t)[:100] if t is not None else None))
    for f in s.fluents:
        for j in range(2):
            x = sym('placed%d %s0' % (j, f), 'o')
            rep.ob('joint motion', '%s placed objects %d' % (key, j), t is not None and in_term(t, lambda z: z is x), L.where(), 'a placed object is no obstacle: %s' % (show(t)[:100] if t is not None else None))
            put = [e for e in ev if e.name == '.assign' and e.recv is sym('placed%d %s1' % (j, f), 'o') and e.seq < L.seq and imp(L.pc, e.pc)]
            rep.ob('joint motion', '%s placed poses %d' % (key, j), bool(put), L.where(), 'a placed object is not put at its pose before the motion is planned')
    at_ = names.get('attachments')
    t = I.closed(st, at_) if at_ is not None else None
    for g in held:
        rep.ob('joint motion', '%s moves with what is held' % key, t is not None and in_term(t, lambda z: z is fn('attachment', g)), L.where(), 'the held object is not attached to the robot while the motion is planned')
    bp = bound_to(W, 'BodyPath', B)
    path = I.closed(st, bp.get('path')) if bp.get('path') is not None else None
    want = L.result
    for g, x in results(path):
        if imp(andd(g, B.pc), sym('teleport', 'b')):
            rep.ob('joint motion', '%s teleport' % key, same(x, I.closed(st, Tup([_mk('attr', q1, 'configuration'), _mk('attr', q2, 'configuration')]))), B.where(), 'teleports along %s' % show(x)[:200])
        elif g is not FALSE:
            rep.ob('joint motion', '%s path' % key, True if x is want else None if in_term(x, lambda z: z is want) else False, B.where(), 'the path is %s' % show(x)[:200])
    js = I.closed(st, bp.get('joints')) if bp.get('joints') is not None else None
    rep.ob('joint motion', '%s joints' % key, js in (_mk('attr', q1, 'joints'), _mk('attr', q2, 'joints')), B.where(), 'the path moves the joints %s' % (show(js)[:100] if js is not None else 'of all'))
    att = I.closed(st, bp.get('attachments')) if bp.get('attachments') is not None else None
    for g in held:
        rep.ob('joint motion', '%s path carries what is held' % key, att is not None and in_term(att, lambda z: z is g), B.where(), 'the path does not carry the held object')
    none = eq(want, NONE)
    for g, x in results(v):
        cond = andd(g, st.pc)
        if cond is FALSE:
            continue
        if x is NONE:
            rep.ob('joint motion', '%s returns nothing' % key, bool(imp(cond, none)), where, 'returns nothing although the planner found a motion')
        else:
            rep.ob('joint motion', '%s returns a motion' % key, bool(imp(cond, orr(sym('teleport', 'b'), nott(none)))), where, 'returns a motion though the planner found none')


def bound_to(W, cls, e):
    """parameter -> argument of a constructor call"""
    for m in repo().modules.values():
        if os.path.dirname(m.rel) == W.dir and cls in m.classes:
            f = m.functions.get(cls + '.__init__')
            if f is not None:
                out = dict(zip([a.arg for a in f.args.args[1:]], e.args))
                out.update(e.kw)
                return out
    return {}


def waypoints(rep, W, P, s, ins, ev, B, st, refs, key, v):
    """every waypoint of the path becomes a configuration of the motion, in order"""
    R, I = P.R, P.I
    q1, q2 = [ins[c] for c in confs_of(s)]
    body = next(t for x, t in ins.items() if any(l.pred in ('graspable', 'movable') and l.args == (x,) for l in s.domain)) if any(
        l.pred in ('graspable', 'movable') for l in s.domain) else None
    grasp = next((t for x, t in ins.items() if any(l.pred == 'grasp' and l.args[-1] == x for l in s.domain)), None)
    if body is None:
        body = next((t for x, t in ins.items() if any(l.pred == 'grasp' and l.args[0] == x for l in s.domain)), None)
    bp = bound_to(W, 'BodyPath', B)
    got = bp.get('path')
    if got is None or body is None or grasp is None:
        rep.ob('complete', key, None, B.where(), 'waypoints, body or grasp not resolved')
        return

    def conf(f):
        pose = fn('Pose', fn('Point', *[f(num(i)) for i in range(3)]), fn('Euler', *[f(num(i)) for i in range(3, 6)]))
        return _mk('attr', fn('ik', body, fn('bodypose', body, pose), grasp), 'values')
    k = fresh_var()
    want = [((), ONE, conf(lambda i: at(refs[0], i))), ((k,), NPATH, conf(lambda i: at(sym('found path', 'x'), k, i))), ((), ONE, conf(lambda i: at(refs[1], i)))]
    x, y = fresh_var(), fresh_var()
    ref = I.closed(st, I.new_list(st, [Seg((x,), (ONE,), TRUE, want[0][2]), Seg((k,), (NPATH,), TRUE, want[1][2]), Seg((y,), (ONE,), TRUE, want[2][2])]))
    t = I.closed(st, got)
    ok = True if t is ref else same(t, ref)
    if ok is not True and isinstance(got, ListRef):
        # number of waypoints and each of them
        n = I.length(st, got)
        lv = st.cells[('L', got.id)]
        if not in_term(n, lambda z: z.op == 'unk') and lv.phi is None:
            c = same(n, add(NPATH, num(2)))
            parts = [(ZERO, want[0][2]), (add(NPATH, ONE), want[2][2])]
            if c is False:
                ok = False
            elif c:
                rs = [same(I.closed(st, I.models.get_item(I, st, got, [i], None)), z) for i, z in parts]
                if False in rs:
                    ok = False
    rep.ob('complete', '%s waypoints' % key, ok, B.where(), 'the motion runs through %s' % show(t)[:600])
    att = I.closed(st, bp.get('attachments')) if bp.get('attachments') is not None else None
    rep.ob('complete', '%s carries what is held' % key, att is not None and in_term(att, lambda z: z is grasp), B.where(), 'the motion does not carry the held object')


def dropped(rep, W):
    """waypoints without inverse kinematics solution"""
    P = MotionProblem(W, ik_fails=TRUE)
    R, I = P.R, P.I
    for s in W.streams:
        for nme, adapter, impl, c in P.stream_map() or ():
            if nme != s.name or not isinstance(impl, (FuncVal, Bound)) or s.name not in {x.name for _, _, _, x in motions(W).values()}:
                continue
            st = R.fork()
            n0 = R.mark()
            ins = {x: sym('in:' + x.lstrip('?'), 'o') for x in s.inputs}
            kw = {'fluents': I.list_of(st, [])} if s.fluents else {}
            I.call(st, impl, list(ins.values()), kw, None)
            ev = R.since(n0)
            if not any(e.name == 'query' for e in ev) or not any(e.name == 'ik' for e in ev):
                continue
            for B in [e for e in ev if e.name == 'make:BodyPath']:
                got = bound_to(W, 'BodyPath', B).get('path')
                if not isinstance(got, ListRef):
                    rep.ob('complete', '%s stream %s every waypoint' % (W.dir, s.name), None, B.where(), 'waypoints not resolved')
                    continue
                lv = st.cells[('L', got.id)]
                ok = None if lv.phi is not None else all(x.guard is TRUE for x in lv.segs)
                if ok is False and not any(in_term(x.guard, lambda z: z.op == 'pred' and z.args[0] == 'ik fails') for x in lv.segs):
                    ok = None
                rep.ob('complete', '%s stream %s every waypoint' % (W.dir, s.name), ok, B.where(),
                       'a waypoint of the found path without inverse kinematics solution is left out of the motion')


def interpolation(rep):
    """vectors are kept in order; what is added lies between neighbours, in order"""
    done = 0
    for m in sorted(repo().modules.values(), key=lambda m: m.rel):
        f = m.functions.get('interpolate_vectors')
        if f is None or not m.rel.startswith(BASE):
            continue
        done += 1
        rep.files.add(m.rel)
        where = '%s:%d' % (m.rel, f.lineno)
        many = interpolated(rep, m, sym('number of vectors', 'pi'))
        pair = interpolated(rep, m, num(2))
        key = m.rel
        if many is None or pair is None or pair[2]:
            rep.ob('interpolation', key, None, where, 'result not resolved')
            continue
        segs, V, _ = pair
        unit = lambda s: not s.vars
        here = [i for i, (s, _) in enumerate(segs) if unit(s)]
        want = [ZERO, ONE]
        ok = len(here) == 2 and here[0] == 0 and here[1] == len(segs) - 1 and all(segs[i][0].guard is TRUE for i in here) and all(
            is_row(segs[i][1], V, w) for i, w in zip(here, want))
        rep.ob('interpolation', '%s ends' % key, bool(ok), where, 'between two vectors: %s' % '; '.join(show(c)[:80] for _, c in segs))
        inner = [x for i, x in enumerate(segs) if i not in here]
        rep.ob('interpolation', '%s pieces' % key, len(inner) <= 1, where, '%d pieces between two vectors' % len(inner))
        for s, c in inner:
            line_rule(rep, key, where, V, s, c)
        # the same for every pair of neighbours
        segs, V, _ = many
        n = sym('number of vectors', 'pi')
        firsts = [(s, c) for s, c in segs if unit(s)]
        rest = [(s, c) for s, c in segs if not unit(s)]
        ok = len(firsts) == 1 and bool(segs) and segs[0][0] is firsts[0][0] and firsts[0][0].guard is TRUE and is_row(firsts[0][1], V, ZERO)
        rep.ob('interpolation', '%s first vector' % key, bool(ok), where, 'does not begin with the first vector')
        keep = [(s, c) for s, c in rest if len(s.vars) == 1 and s.guard is TRUE and same(s.sizes[0], sub(n, ONE)) and is_row(c, V, add(s.vars[0], ONE))]
        rep.ob('interpolation', '%s every vector' % key, len(keep) == 1 if len(rest) == len(inner) + 1 else None, where, 'does not keep every vector exactly once')
        for s, c in rest:
            if (s, c) not in keep:
                rep.ob('interpolation', '%s every pair' % key, len(s.vars) == 2 and same(s.sizes[0], sub(n, ONE)), where, 'not every pair of neighbours is interpolated')
    rep.ob('interpolation', 'interpolate_vectors', True if done else None, BASE, 'no interpolation found')


def is_row(c, V, i):
    """is the closed vector row i of V"""
    q = sym('component', 'in')
    x = open_lam(c, [q])[3] if c.op == 'lam' and len(c.args[1]) == 1 else at(c, q)
    return same(x, at(V, i, q))


def interpolated(rep, m, n):
    """segments (with closed values) of the list interpolate_vectors builds from n vectors"""
    R = Run(m.name)
    rep.saw(R.I)
    got = []

    def array(I, st, args, kw, node):
        if args and isinstance(args[0], ListRef):
            got.append((args[0], st.copy()))
            return sym('result', 'o')
        return NP['array'](I, st, args, kw, node)
    R.I.contract_funcs['numpy.array'] = array
    vec = R.array('V', n, sym('dimension', 'pi'))
    r = R.call(m.name, 'interpolate_vectors', vec, sym('threshold', 'p'))
    if isinstance(r, ListRef):
        got.append((r, R.st))
    if not got:
        return None
    v, st = got[-1]
    lv = st.cells[('L', v.id)]
    if lv.phi is not None:
        return None
    V = R.closed(vec)
    base = open_lam(V)[3] if V.op == 'lam' else V
    while base.op == 'at':
        base = base.args[0]
    return [(s, R.I.closed(st, s.value)) for s in lv.segs], base, lv.mixed


def line_rule(rep, key, where, V, s, c):
    """points between V[0] and V[1]: strictly inside, in order"""
    if len(s.vars) != 1 or c.op != 'lam' or len(c.args[1]) != 1:
        rep.ob('interpolation', '%s between' % key, None, where, 'points not resolved: %s' % show(c)[:100])
        return
    q = sym('component', 'in')
    t = open_lam(c, [q])[3]
    a, b = at(V, ZERO, q), at(V, ONE, q)
    parts = {a: ZERO, b: ZERO}
    left = ZERO
    for m, k in poly_of(t).items():
        hit = [x for x in (a, b) if (x, 1) in m]
        if len(hit) == 1:
            parts[hit[0]] = add(parts[hit[0]], mk_poly({tuple(z for z in m if z != (hit[0], 1)): k}))
        else:
            left = add(left, mk_poly({m: k}))
    wa, wb = parts[a], parts[b]
    if left is not ZERO or any(z in (a, b) for z in list(subterms(wa)) + list(subterms(wb)) if z.op == 'at' and z.args[-1] == q):
        rep.ob('interpolation', '%s between' % key, None, where, 'points not resolved: %s' % show(t)[:200])
        return
    rep.ob('interpolation', '%s on the line' % key, same(add(wa, wb), ONE), where, 'a point between two vectors is off the line between them: weights %s and %s' % (show(wa)[:100], show(wb)[:100]))
    j = sym('step', 'in')
    y = s.vars[0]
    ctx = [s.guard, lt(j, subst(s.sizes[0], {y: j}))]
    w = subst(wb, {y: j})
    bad = lambda f: False if teval.witness(andd(*ctx, nott(f))) else None
    for what, f in (('after the first', lt(ZERO, w)), ('not beyond the second', le(w, ONE)), ('in order', lt(w, subst(wb, {y: add(j, ONE)})))):
        rep.ob('interpolation', '%s %s' % (key, what), True if ratio(ctx, f, w, wb, y, j, what) else bad(f), where, 'a point lies at %s of the way' % show(w)[:150])


def ratio(ctx, f, w, wb, y, j, what):
    """decides weights of the form (a*j + b)/D with D free of j"""
    if imp(*ctx, f):
        return True
    # multiply out the common denominator
    for d in {x for m in poly_of(w) for x, e in m if e == -1}:
        def times(t):
            out = ZERO
            for m, c in poly_of(t).items():
                out = add(out, mk_poly({tuple(z for z in m if z != (d, -1)): c}) if (d, -1) in m else mul(mk_poly({m: c}), d))
            return out
        if in_term(d, lambda z: z is j) or not imp(*ctx, lt(ZERO, d)):
            continue
        n_, nxt = times(w), times(subst(wb, {y: add(j, ONE)}))
        if imp(*ctx, {'after the first': lt(ZERO, n_), 'not beyond the second': le(n_, d), 'in order': lt(n_, nxt)}[what]):
            return True
    return False
