"""Command lines of the planning experiments: launch scripts, shell scripts and the options of the programs they start."""
import ast
import os
import re

from .checks import *
from .loader import AnchorMissing
from .models import cat
from .rules_tamp import BASE, WORLDS, problem_calls, opaque_maker, flow, World
from .rules_trials import Script, ARGS, option_type, const_text
from .terms import _mk
from .values import Tup

# options of the parser that pddlstream.algorithms.meta.create_parser returns: flag -> takes a value
LIBRARY_OPTIONS = {'algorithm': (('-a', '--algorithm'), True), 'unit': (('-u', '--unit'), False)}


# ------------------------------------------------------------------------------------------------ shell scripts

class Word:
    """parts of a shell word: ('lit', text), ('var', name), ('cmd', text)"""

    def __init__(self, parts, split=()):
        self.parts = tuple(parts)

    def lit(self):
        return ''.join(p[1] for p in self.parts) if all(p[0] == 'lit' for p in self.parts) else None

    def head(self):
        return self.parts[0][1] if self.parts and self.parts[0][0] == 'lit' else ''

    def __repr__(self):
        return ''.join(p[1] if p[0] == 'lit' else '$' + p[1] if p[0] == 'var' else '$(%s)' % p[1] for p in self.parts)


class Unread(Exception):
    pass


def statements(text):
    """the simple statements of a shell script: [(line, [raw words])], a raw word being a list of (quoted, kind, text)"""
    out, cur, word, i, line, start = [], [], None, 0, 1, 1
    n = len(text)

    def part(q, k, s):
        nonlocal word
        if word is None:
            word = []
        if word and word[-1][0] == q and word[-1][1] == k == 'lit':
            word[-1] = (q, k, word[-1][2] + s)
        else:
            word.append((q, k, s))

    def end_word():
        nonlocal word
        if word is not None:
            cur.append(word)
        word = None

    def end():
        nonlocal cur
        end_word()
        if cur:
            out.append((start, cur))
        cur = []

    def closing(i, op, cl):
        d = 0
        while i < n:
            if text[i] == op:
                d += 1
            elif text[i] == cl:
                d -= 1
                if d == 0:
                    return i
            i += 1
        raise Unread('unbalanced %s' % op)

    def dollar(i, q):
        if text.startswith('$(', i):
            j = closing(i + 1, '(', ')')
            part(q, 'cmd', text[i + 2:j])
            return j + 1
        m = re.match(r'\$(\{(\w+|[@*#?])\}|(\w+|[@*#?!$-]))', text[i:])
        if m is None:
            if text.startswith('${', i):
                raise Unread('expansion %r' % text[i:i + 20])
            part(q, 'lit', '$')
            return i + 1
        name = m.group(2) or m.group(3)
        if m.group(3) and name[0].isdigit():
            name = name[0]
            part(q, 'var', name)
            return i + 2
        part(q, 'var', name)
        return i + len(m.group(0))
    while i < n:
        c = text[i]
        if not cur and word is None:
            start = line
        if c == '\\' and i + 1 < n:
            if text[i + 1] == '\n':
                line += 1
            else:
                part(True, 'lit', text[i + 1])
            i += 2
        elif c == '#' and word is None:
            while i < n and text[i] != '\n':
                i += 1
        elif c == "'":
            j = text.index("'", i + 1)
            part(True, 'lit', text[i + 1:j])
            i = j + 1
        elif c == '"':
            part(True, 'lit', '')
            i += 1
            while text[i] != '"':
                if text[i] == '$':
                    i = dollar(i, True)
                elif text[i] == '\\' and text[i + 1] in '"\\$`':
                    part(True, 'lit', text[i + 1])
                    i += 2
                elif text[i] == '`':
                    j = text.index('`', i + 1)
                    part(True, 'cmd', text[i + 1:j])
                    i = j + 1
                else:
                    part(True, 'lit', text[i])
                    i += 1
            i += 1
        elif c == '$':
            i = dollar(i, False)
        elif c == '`':
            j = text.index('`', i + 1)
            part(False, 'cmd', text[i + 1:j])
            i = j + 1
        elif c == '\n' or c == ';' or text.startswith('&&', i) and not (cur and raw(cur[0]) in ('[', '[[', 'if', 'elif')):
            end()
            if c == '\n':
                line += 1
            i += 2 if c == '&' else 1
        elif c in ' \t':
            end_word()
            i += 1
        elif text.startswith('((', i) and word is None:
            j = closing(i, '(', ')')
            part(False, 'lit', text[i:j + 1])
            i = j + 1
        else:
            part(False, 'lit', c)
            i += 1
    end()
    return out


def raw(w):
    return w[0][2] if len(w) == 1 and w[0][1] == 'lit' and not w[0][0] else None


class Command:
    def __init__(self, words, conds, loops, line, env):
        self.words, self.conds, self.loops, self.line, self.env = words, conds, loops, line, env


class Shell:
    """the commands a script can run, each with the branches and loops around it"""

    def __init__(self, rel):
        self.rel = rel
        text = repo().read(rel)
        self.commands, self.counters, self.unread = [], [], None
        try:
            self.read(statements(text))
        except (Unread, ValueError, IndexError) as e:
            self.unread = str(e) or 'script not understood'

    def expand(self, w, env):
        """a raw word with the variables the script itself has set put in; unquoted ones split at blanks"""
        out, cur = [], []
        for q, k, s in w:
            vals = [(k, s)]
            if k == 'var' and s in env and env[s] is not None:
                vals = list(env[s])
            for kk, ss in vals:
                if kk == 'lit' and not q and k == 'var':
                    pieces = re.split(r'\s+', ss)
                    for t, x in enumerate(pieces):
                        if t:
                            if cur:
                                out.append(cur)
                            cur = []
                        if x:
                            cur.append(('lit', x))
                else:
                    cur.append((kk, ss))
        if cur or any(q for q, _, _ in w):
            out.append(cur)
        res = []
        for ps in out:
            m = []
            for k, s in ps:
                if k == 'lit' and not s:
                    continue
                if m and m[-1][0] == k == 'lit':
                    m[-1] = ('lit', m[-1][1] + s)
                else:
                    m.append((k, s))
            res.append(Word(m))
        return res

    def read(self, sts):
        env, stack = {}, []

        def conds():
            return tuple(c for x in stack if x[0] == 'if' for c in x[1])

        def loops():
            return tuple((x[1], x[2], x[3]) for x in stack if x[0] == 'for')
        queue = list(sts)
        while queue:
            line, ws = queue.pop(0)
            h = raw(ws[0])
            if h in ('do', 'then'):
                if len(ws) > 1:
                    queue.insert(0, (line, ws[1:]))
                continue
            if h == 'for':
                if len(ws) < 3 or raw(ws[2]) != 'in':
                    raise Unread('for loop at line %d' % line)
                items = [x for w in ws[3:] for x in self.expand(w, env)]
                stack.append(('for', raw(ws[1]), items, line))
                env.pop(raw(ws[1]), None)
                continue
            if h == 'done':
                if not stack or stack.pop()[0] != 'for':
                    raise Unread('done at line %d' % line)
                continue
            if h == 'if':
                stack.append(('if', [(True, self.test(ws[1:], env, line))]))
                continue
            if h in ('elif', 'else'):
                if not stack or stack[-1][0] != 'if':
                    raise Unread('%s at line %d' % (h, line))
                _, cs = stack.pop()
                cs = [(False, t) if j == len(cs) - 1 else (p, t) for j, (p, t) in enumerate(cs)]
                if h == 'elif':
                    cs.append((True, self.test(ws[1:], env, line)))
                stack.append(('if', cs))
                if h == 'else' and len(ws) > 1:
                    queue.insert(0, (line, ws[1:]))
                continue
            if h == 'fi':
                if not stack or stack.pop()[0] != 'if':
                    raise Unread('fi at line %d' % line)
                continue
            if h in ('while', 'until', 'case', 'function', 'select', 'shift', 'set', 'eval', 'source', '.', '{', '(') or any(
                    raw(w) in ('|', '||') for w in ws) or h is not None and h.endswith('()'):
                raise Unread('%s at line %d' % (h, line))
            if h == 'export' or h == 'declare' or h == 'local':
                ws = ws[1:]
                h = raw(ws[0]) if ws else None
            m = None
            while ws and ws[0] and ws[0][0][1] == 'lit' and not ws[0][0][0]:
                m = re.match(r'(\w+)(\+?)=', ws[0][0][2])
                if m is None:
                    break
                rest = [(ws[0][0][0], 'lit', ws[0][0][2][m.end():])] + ws[0][1:]
                rest = [x for x in rest if x[2] or x[0]]
                if len(ws) == 1 or re.match(r'\w+\+?=', ws[1][0][2] if ws[1][0][1] == 'lit' else ''):
                    self.assign(m.group(1), rest, env, conds(), loops(), line, stack, m.group(2))
                ws = ws[1:]
            if not ws:
                continue
            m2 = re.match(r'\(\(\s*(\w+)\s*(\+\+|\+=\s*(\d+))\s*\)\)$', h or '')
            if m2:
                self.counters.append((m2.group(1), int(m2.group(3) or 1), conds(), loops(), line))
                env[m2.group(1)] = None
                continue
            if h == 'let' and len(ws) == 2:
                m3 = re.match(r'(\w+)(\+\+|\+=(\d+))$', self.text(ws[1]))
                if m3:
                    self.counters.append((m3.group(1), int(m3.group(3) or 1), conds(), loops(), line))
                    env[m3.group(1)] = None
                    continue
            words = [x for w in ws for x in self.expand(w, env)]
            self.commands.append(Command(words, conds(), loops(), line, dict(env)))
        if stack:
            raise Unread('unfinished %s' % stack[-1][0])

    def text(self, w):
        return ''.join(s if k == 'lit' else '$' + s if k == 'var' else '$(%s)' % s for _, k, s in w)

    def assign(self, name, rest, env, cs, ls, line, stack, plus):
        t = self.text(rest)
        m = re.match(r'\$\(\(\s*\$?\(*%s\)*\s*\+\s*(\d+)\s*\)\)$' % re.escape(name), t)
        if m:
            self.counters.append((name, int(m.group(1)), cs, ls, line))
            env[name] = None
            return
        parts = [(k, s) for w in self.expand_quoted(rest, env) for k, s in w]
        old = env.get(name)
        if plus:
            parts = list(old) + parts if old is not None else None
        if parts is not None and not ls and not cs or name not in env and parts is not None:
            if any(k == 'cmd' for k, _ in parts):
                env.pop(name, None)
                return
            env[name] = tuple(parts) if not cs or name not in env else None
        elif tuple(parts or ()) != old:
            env[name] = None if cs else tuple(parts) if parts is not None else None
        if not ls and re.match(r'\d+$', t):
            self.counters.append((name, ('start', int(t)), cs, ls, line))
            env.pop(name, None)

    def expand_quoted(self, rest, env):
        return [w.parts for w in self.expand([(True, k, s) for _, k, s in rest], env)]

    def test(self, ws, env, line):
        """[ A op B ] as (A, op, B)"""
        rs = [raw(w) for w in ws]
        if rs and rs[0] in ('[', '[[') and rs[-1] in (']', ']]') and len(ws) == 5:
            a, b = [self.expand([(True, k, s) for _, k, s in w], env)[0] for w in (ws[1], ws[3])]
            return (a, rs[2], b)
        if len(rs) == 1 and rs[0] and rs[0].startswith('((') and rs[0].endswith('))'):
            m = re.match(r'\(\(\s*(\S+?)\s*(==|!=|<=|>=|<|>)\s*(\S+?)\s*\)\)$', rs[0])
            if m:
                f = [Word([('var', x.strip('${}'))]) if re.search('[A-Za-z$]', x) else Word([('lit', x)]) for x in (m.group(1), m.group(3))]
                return (f[0], {'==': '-eq', '!=': '-ne', '<=': '-le', '>=': '-ge', '<': '-lt', '>': '-gt'}[m.group(2)], f[1])
        return None


# ------------------------------------------------------------------------------------------------ programs

def names_called(f):
    return {n.func.id if isinstance(n.func, ast.Name) else n.func.attr for n in ast.walk(f)
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute))}


def attributes(f):
    return {n.attr for n in ast.walk(f) if isinstance(n, ast.Attribute)}


BUILDS = re.compile(r'(create|load)_(box|cylinder|sphere|capsule|mesh|model|body|hollow|pybullet|object)')


def scenes(W):
    """{(module, function): kind} of the functions the programs are followed up to: those that make the planning problem and
    those that make the bodies of the scene"""
    rp = repo()
    ms = [m for m in rp.modules.values() if os.path.dirname(m.rel) == W.dir]
    fs = {}
    for m in ms:
        for n in m.tree.body:
            if isinstance(n, ast.FunctionDef):
                fs.setdefault(n.name, (m, n))
    calls = {k: names_called(n) for k, (m, n) in fs.items()}
    dests = {key(x.value) for m in ms for x in ast.walk(m.tree) if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.startswith('--')}

    def reach(k, seen):
        seen.add(k)
        for c in calls[k]:
            if c in fs and c not in seen:
                reach(c, seen)
        return seen
    out = {}
    for k, (m, n) in fs.items():
        r = reach(k, set())
        alln = set().union(*[calls[x] for x in r])
        if alln & {'parse_args', 'parse_known_args'}:
            continue
        if 'PDDLProblem' in calls[k]:
            out[(m.name, k)] = 'problem'
        elif any(BUILDS.match(x) for x in alln) and 'PDDLProblem' not in alln:
            # a helper that only passes options on is followed
            ps = {a.arg for a in n.args.args}
            if any(isinstance(x, ast.Attribute) and x.attr in dests and isinstance(x.value, ast.Name) and x.value.id in ps for x in ast.walk(n)):
                continue
            if len(n.body) > 2 or any(BUILDS.match(x) for x in calls[k]):
                out[(m.name, k)] = 'scene'
    return out, fs


class Program:
    """a program started by the launch scripts, followed up to the scene and the problem it builds"""

    def __init__(self, W, flags=()):
        self.W = W
        self.mod = W.dir.replace('/', '.') + '.run'
        self.kinds, self.fs = scenes(W)
        self.reads = {}

        def prepare(s):
            I = s.R.I
            for (m, k), kind in self.kinds.items():
                I.contract_funcs[(m, k)] = opaque_maker(k)
            old = I.attr_hook

            def seen(I_, st, o, name, node):
                if o is ARGS:
                    self.reads.setdefault(name, node)
                return old(I_, st, o, name, node)
            I.attr_hook = seen
        self.s = Script(self.mod, flags, prepare)
        self.opts = self.s.opts
        self.rel = self.s.m.rel

    def made(self, kind):
        ks = {'make:' + k for (m, k), v in self.kinds.items() if v == kind}
        return [e for e in self.s.events if e.name in ks]


def representable(typ, parts, loops, arg):
    """is every value of the parts accepted by the declared type?  arg: positional -> term"""
    if typ not in ('int', 'float'):
        return True if typ in (None, 'str') else None
    lit = ''
    for k, s in parts:
        if k == 'lit':
            lit += s
        elif len(parts) > 1:
            return None
        elif k == 'var' and s.isdigit():
            t = arg.get(int(s))
            if t is None:
                return None
            return term_fits(typ, t)
        elif k == 'var':
            items = next((x for n, x, _ in loops if n == s), None)
            if items is None:
                return None
            rs = [item_fits(typ, w) for w in items]
            return False if False in rs else None if None in rs else True
        else:
            return None
    return text_fits(typ, lit)


def text_fits(typ, s):
    try:
        int(s) if typ == 'int' else float(s)
        return True
    except ValueError:
        return False


def seq_range(w):
    if len(w.parts) == 1 and w.parts[0][0] == 'cmd':
        m = re.match(r'seq\s+(?:(-?\d+)\s+)?(-?\d+)$', w.parts[0][1].strip())
        if m:
            return int(m.group(1) or 1), int(m.group(2))
    return None


def item_fits(typ, w):
    if seq_range(w):
        return True
    return text_fits(typ, w.lit()) if w.lit() is not None else None


def unstr(t):
    while t.op == 'str' or t.op == 'fn' and t.args[0] == 'str':
        t = t.args[0] if t.op == 'str' else t.args[1][0]
    return t


def number_of(t):
    """the number a word spells"""
    s = const_text(t)
    if s is not None:
        try:
            return num(int(s))
        except ValueError:
            return None
    u = unstr(t)
    return u if u is not t else None


def term_fits(typ, t):
    s = const_text(t)
    if s is not None:
        return text_fits(typ, s)
    u = unstr(t)
    if u is t or has_unknown(u):
        return None
    if typ == 'float':
        return True if u.op in ('c', 'poly', 'pi', 'int', 'call') else None
    if is_int(u):
        return True
    if cval(u) is not None:
        return False
    if u.op in ('poly', 'pi', 'call') and not any(x.op in ('ite', 'phi') for x in subterms(u)) and any(
            x.op == 'pi' or x.op == 'call' and str(x.args[0]).split('.')[-1] in ('uniform', 'random') and not within_int(u, x) for x in subterms(u)):
        return False
    return None


def within_int(t, x):
    """does x occur in t only below int(...)?"""
    m = {y: sym('whole:%d' % i, 'i') for i, y in enumerate(z for z in subterms(t) if z.op in ('int', 'floor', 'ceil', 'round'))}
    r = subst(t, m) if m else t
    return all(y is not x for y in subterms(r))


def pieces(e, f):
    """[text or expression] of an expression that builds a command line, or None"""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return [e.value]
    if isinstance(e, ast.JoinedStr):
        out = []
        for v in e.values:
            p = [v.value] if isinstance(v, ast.Constant) else ([v.value] if v.format_spec is None else None)
            if p is None:
                return None
            out += p
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = pieces(e.left, f), pieces(e.right, f)
        return None if a is None or b is None else a + b
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
        args = list(e.right.elts) if isinstance(e.right, ast.Tuple) else [e.right]
        t = re.split(r'%[sdfgr]', e.left.value)
        if len(t) != len(args) + 1:
            return None
        out = [t[0]]
        for a, x in zip(args, t[1:]):
            out += [a, x]
        return out
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and isinstance(e.func.value, ast.Constant) and isinstance(e.func.value.value, str):
        out, i = [], 0
        kws = {k.arg: k.value for k in e.keywords}
        for j, t in enumerate(re.split(r'\{(\w*)\}', e.func.value.value)):
            if j % 2 == 0:
                out.append(t)
            elif t == '':
                if i >= len(e.args):
                    return None
                out.append(e.args[i])
                i += 1
            elif t.isdigit() and int(t) < len(e.args):
                out.append(e.args[int(t)])
            elif t in kws:
                out.append(kws[t])
            else:
                return None
        return out
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'join' and isinstance(e.func.value, ast.Constant) and e.func.value.value == ' ' and len(e.args) == 1:
        return pieces(e.args[0], f)
    if isinstance(e, (ast.List, ast.Tuple)):
        out = []
        for i, x in enumerate(e.elts):
            p = pieces(x, f)
            if p is None:
                return None
            out += ([' '] if i else []) + p
        return out
    if isinstance(e, ast.Name) and f is not None:
        ds = [n for n in ast.walk(f) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        if len(ds) == 1:
            p = pieces(ds[0].value, f)
            if p is not None:
                return p
    return [e]


def named(e):
    """the variable an expression spells, if it is no more than that"""
    while isinstance(e, ast.Call) and len(e.args) == 1 and not e.keywords and isinstance(e.func, ast.Name) and e.func.id in ('str', 'int', 'float', 'repr'):
        e = e.args[0]
    return e.id if isinstance(e, ast.Name) else None


def key(s):
    return s.replace('-', '_').strip('_').lower()


class Launch:
    """one launch script: the jobs it submits, and the names of what it puts on their command lines"""

    def __init__(self, rel):
        self.rel = rel
        self.s = s = Script(rel[:-3].replace('/', '.'))
        self.jobs = []
        for e, words in s.runs:
            if words is None:
                from .rules_trials import tokens_of
                v = e.args[0]
                if not (v.op == 'cat' or const_text(v) is not None):
                    continue
                lines = tokens_of(v)
                words = next((w for w in lines if const_text(w[0]) == 'sbatch'), None)
            if not words or const_text(words[0]) != 'sbatch':
                continue
            i = 1
            opts = {}
            while i < len(words) and word_head(words[i]).startswith('-'):
                h = const_text(words[i])
                if h and h.startswith('--') and '=' in h:
                    k, v = h[2:].split('=', 1)
                    opts[k] = v
                elif h in ('-a', '--array') and i + 1 < len(words):
                    opts['array'] = const_text(words[i + 1])
                    i += 1
                i += 1
            if i < len(words):
                self.jobs.append((e, opts, const_text(words[i]), {j + 1: w for j, w in enumerate(words[i + 1:])}))
        self.names = self.labels()

    def labels(self):
        """script -> {position: variable}, from the call that submits it"""
        out = {}
        m = self.s.m
        for e, opts, script, args in self.jobs:
            if script in out or not isinstance(e.node, ast.Call) or not e.node.args:
                continue
            f = None
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef) and any(x is e.node for x in ast.walk(n)):
                    f = n
            ps = pieces(e.node.args[0], f)
            out[script] = {}
            if ps is None:
                continue
            table, text = [], ''
            for p in ps:
                if isinstance(p, str):
                    text += p
                else:
                    text += chr(0xE000 + len(table))
                    table.append(p)
            ws = text.replace('"', '').split()
            j = next((i for i, w in enumerate(ws) if w.endswith('.sh')), None)
            if j is None:
                continue
            self.func = f
            for k, w in enumerate(ws[j + 1:]):
                if len(w) == 1 and 0xE000 <= ord(w) < 0xE000 + len(table):
                    v = named(table[ord(w) - 0xE000])
                    if v:
                        out[script][k + 1] = v
        return out


def word_head(t):
    if t.op == 'cat':
        return const_text(t.args[0]) or ''
    return const_text(t) or ''


def value_of(w, arg):
    """integer a tested word stands for, 'task' for the task counter, None if open"""
    if len(w.parts) == 1:
        k, s = w.parts[0]
        if k == 'lit':
            return int(s) if re.match(r'-?\d+$', s) else None
        if k == 'var' and s.isdigit():
            t = arg.get(int(s))
            n = number_of(t) if t is not None else None
            if t is not None and (n is TRUE or n is FALSE or n is None and const_text(t) is not None):
                return 'text'
            c = cval(n) if n is not None else None
            return int(c) if c is not None and c.denominator == 1 else n
    return None


REL = {'-eq': '==', '-ne': '!=', '-lt': '<', '-le': '<=', '-gt': '>', '-ge': '>=', '==': '==', '=': '==', '!=': '!='}


def positionals(w):
    return [int(s) for k, s in w.parts if k == 'var' and s.isdigit() and int(s) > 0]


def holds(c, arg):
    """does the branch condition hold?  None when open"""
    pos, t = c
    if t is None:
        return None
    a, op, b = value_of(t[0], arg), REL.get(t[1]), value_of(t[2], arg)
    if 'text' in (a, b) and t[1].startswith('-'):
        return not pos
    if not isinstance(a, int) or not isinstance(b, int) or op is None:
        return None
    r = {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    return r == pos


def task_test(c):
    """a test of the task number of the array: (positive, counter)"""
    pos, t = c
    if t is None or not pos or REL.get(t[1]) != '==':
        return None
    x, y = repr(t[0]), repr(t[2])
    for a, b in ((x, y), (y, x)):
        if 'SLURM_ARRAY_TASK_ID' in a and re.sub(r'[\s$(){}]|\+0', '', a.replace(' ', '')) == 'SLURM_ARRAY_TASK_ID':
            return re.sub(r'[\s$(){}]', '', b)
    return None


def command_options(words, opts):
    """[(flag, option or None, parts of the value or None)] of the words behind a program"""
    out, i = [], 0
    while i < len(words):
        w = words[i]
        h = w.head()
        if h.startswith('--') or re.match(r'-[A-Za-z]', h):
            flag, eq, rest = h.partition('=')
            parts = None
            if eq:
                parts = tuple(([('lit', rest)] if rest else []) + list(w.parts[1:]))
            elif len(w.parts) > 1:
                out.append((repr(w), None, None))
                i += 1
                continue
            o = opts.by_flag(flag)
            if o is None:
                m = opts.abbreviates(flag) if flag.startswith('--') else []
                o = m[0] if len(m) == 1 else None
            if o is not None and parts is None and takes_value(o) and i + 1 < len(words) and not words[i + 1].head().startswith('-'):
                parts = words[i + 1].parts
                i += 1
            out.append((flag, o, parts))
        else:
            out.append((repr(w), 'word', None))
        i += 1
    return out


def takes_value(o):
    return o.get('action') in (None, 'store', 'append') and o.get('nargs') != 0


class Tally:
    """one obligation for the many commands that raise it: refuted if one is, proved if all are"""

    def __init__(self, rep):
        self.rep, self.d = rep, {}

    def ob(self, rule, k, r, where, detail=''):
        old = self.d.get((rule, k))
        rank = {True: 0, None: 1, False: 2}
        if old is None or rank[r] > rank[old[0]]:
            self.d[(rule, k)] = (r, where, detail)

    def flush(self):
        for (rule, k), (r, where, detail) in self.d.items():
            self.rep.ob(rule, k, r, where, detail)


def T04(rep):
    rep.rule('script', 'every script a launcher submits exists, starts a program of the repository in every mode it is submitted in, and is given every argument it reads')
    rep.rule('option', 'every option on a command line is declared by the program, with a value exactly if the declaration takes one')
    rep.rule('value', 'every value on a command line, and every default, is one the declared type accepts')
    rep.rule('order', 'each launcher passes its arguments in the order in which the script reads them')
    rep.rule('task', 'each task of a submitted array starts the program for one seed, and no two tasks for the same one')
    rep.rule('range', 'a sample range that is passed does not start above its end')
    rep.rule('read', 'every option a program reads is declared, once')
    rep.rule('seed', 'a given seed that is not negative seeds both random generators before a scene is built')
    rep.rule('reach', 'the gap, the sample range, the growth factor, the margins and the adaptive switch given are the ones the scene and the problem are built with')
    T = Tally(rep)
    progs = {}
    for w in WORLDS:
        W = World(w)
        for fl in ((), ('adaptive_n',)):
            progs[w, fl] = Program(W, fl)
            rep.saw(progs[w, fl].s.R.I)
        program(T, rep, w, progs[w, ()], progs[w, ('adaptive_n',)])
    shells = {}
    for rel in repo().glob(BASE, '.sh'):
        sh = Shell(rel)
        if sh.unread is not None or any(x for c in sh.commands for x in c.words if 'run.py' in repr(x)):
            shells[os.path.basename(rel)] = sh
            rep.files.add(rel)
    n = 0
    for rel in repo().glob(BASE, '.py'):
        if 'sbatch' not in repo().read(rel):
            continue
        L = Launch(rel)
        rep.saw(L.s.R.I)
        rep.files.add(rel)
        if not L.jobs:
            T.ob('script', os.path.basename(rel), None, rel, 'no submission was recognised')
        # the passes of a loop over what is left of one list take what its first pass takes
        read = {id(e.node) for e, _, _, arg in L.jobs if not any(has_unknown(a) for a in arg.values())}
        for job in L.jobs:
            if id(job[0].node) in read and any(has_unknown(a) for a in job[3].values()):
                continue
            n += 1
            submitted(T, L, job, shells, progs)
    rep.count('jobs', n)
    for name, sh in shells.items():
        script_alone(T, name, sh, progs)
    T.flush()


def program(T, rep, w, P, A):
    rel = P.rel
    opts = P.opts
    seen = {}
    for d, o in opts.opts.items():
        rep.count('options', 1)
        typ, dv = option_type(o), o.get('default')
        ok = True
        if takes_value(o) and typ in ('int', 'float'):
            if isinstance(dv, str):
                ok = text_fits(typ, dv)
            elif isinstance(dv, bool):
                ok = True
            elif dv is None:
                ok = True
            elif hasattr(dv, 'denominator'):
                ok = typ == 'float' or dv.denominator == 1
            elif isinstance(dv, T_):
                ok = False if typ == 'int' and any(x.op == 'pi' for x in subterms(dv)) else None if typ == 'int' and not is_int(dv) else True
            else:
                ok = None
        elif takes_value(o) and typ in (None, 'str'):
            ok = True
        T.ob('value', '%s default of %s' % (w, d), ok, rel, '' if ok else 'the default of --%s is not of type %s' % (d, typ))
    if 'seed' in opts.opts:
        typ = option_type(opts.opts['seed'])
        T.ob('value', '%s seed' % w, True if typ == 'int' else False if typ in ('float', 'str', None) else None, rel, '' if typ == 'int' else
             'a seed of type %s: numpy.random.seed takes integers only' % typ)
    adds = [e for e in P.s.events if e.name == '.add_argument']
    lib = any(e.name.split('.')[-1] == 'create_parser' for e in P.s.events)
    flags = {}
    for e in adds:
        for a in e.args:
            f = const_text(a) if isinstance(a, T_) else None
            if f is None:
                T.ob('read', '%s flags' % w, None, e.where(), 'an option whose name is not constant')
                continue
            dup = f in flags or lib and any(f in fs for fs, _ in LIBRARY_OPTIONS.values())
            flags[f] = e
            T.ob('read', '%s %s declared once' % (w, f), not dup, e.where(), '%s is declared twice: the parser rejects it' % f if dup else '')
    for P_ in (P, A):
        for d, node in P_.reads.items():
            if d in opts.opts:
                T.ob('read', '%s %s' % (w, d), True, rel)
            elif lib and d in LIBRARY_OPTIONS:
                T.ob('read', '%s %s' % (w, d), True, rel)
            elif d in ('__dict__', '__class__', '__eq__'):
                continue
            else:
                T.ob('read', '%s %s' % (w, d), None if lib else False, '%s:%d' % (rel, node.lineno), 'args.%s is read, no option declares it' % d)
    for tag, P_ in (('', P), (' adaptive', A)):
        seeds(T, w + tag, P_)
        reaches(T, w + tag, P_, tag != '')


T_ = T


def seeds(T, tag, P):
    s = P.s
    sc = P.made('scene')
    if 'seed' not in P.opts.opts or not sc:
        T.ob('seed', tag, None, P.rel, 'no seed option or no scene was recognised')
        return
    first = min(e.seq for e in sc)
    v = _mk('attr', ARGS, 'seed')
    for gen, names in (('random', ('random.seed',)), ('numpy.random', ('numpy.random.seed',))):
        es = [e for e in s.events if e.name in names]
        before = [e for e in es if e.seq < first]
        k = '%s %s' % (tag, gen)
        good = None
        bad = None
        for e in es:
            a = s.c(e.args[0]) if e.args else NONE
            given = logic.valid(implies_t(le(ZERO, v), e.pc)) if not has_unknown(e.pc) else None
            right = a is v
            if right and given is True and e.seq < first and not e.binders:
                good = e
            elif not right and not has_unknown(a) and e.seq < first and good is not None and logic.valid(nott(andd(e.pc, le(ZERO, v)))) is not True:
                bad = e
        if bad is not None:
            T.ob('seed', k, False, bad.where(), 'seeded again with %s' % show(s.c(bad.args[0]) if bad.args else NONE)[:80])
        elif good is not None:
            T.ob('seed', k, True, good.where())
        else:
            e = es[0] if es else sc[0]
            und = any(has_unknown(x.pc) for x in es)
            T.ob('seed', k, None if und else False, e.where(), 'a given seed does not seed %s before the scene is built' % gen)


REACH = ('min_samples', 'max_samples', 'factor', 'collision_buffer', 'theta_margin')


def bound_args(P, e):
    f = next(n for (k, (m, n)) in P.fs.items() if e.name == 'make:' + k)
    ps = [a.arg for a in f.args.posonlyargs + f.args.args]
    out = dict(zip(ps, e.args))
    out.update(e.kw)
    return f, {k: P.s.c(v) for k, v in out.items() if k is not None}


def reaches(T, tag, P, adaptive):
    pr, sc = P.made('problem'), P.made('scene')
    if not pr or not sc:
        T.ob('reach', tag, None, P.rel, 'no scene or no problem was recognised')
        return
    for e in pr:
        f, args = bound_args(P, e)
        star = any(k is None for k in e.kw)
        for d in REACH + ('adaptive_n',):
            if d not in P.opts.opts or adaptive and d == 'min_samples':
                continue
            want = _mk('attr', ARGS, d) if d != 'adaptive_n' else TRUE if adaptive else FALSE
            got = args.get(d)
            k = '%s %s' % (tag, d)
            if got is not None:
                ok = got is want
                T.ob('reach', k, True if ok else None if has_unknown(got) or got.op in ('phi', 'ite') else False, e.where(), '' if ok else
                     '%s of the problem is %s' % (d, show(got)[:80]))
            elif any(x is want for x in args.values()) and d != 'adaptive_n':
                T.ob('reach', k, True, e.where())
            elif any(a.arg == d for a in f.args.args + f.args.kwonlyargs):
                T.ob('reach', k, None if star else False, e.where(), 'the problem is built with the default of %s' % d)
            else:
                T.ob('reach', k, None, e.where(), 'no parameter for %s' % d)
    want = _mk('attr', ARGS, 'delta')
    if 'delta' in P.opts.opts:
        for e in sc:
            f, args = bound_args(P, e)
            hits = [k for k, x in args.items() if x is want]
            k = '%s delta' % tag
            used = [h for h in hits if any(isinstance(n, ast.Name) and n.id == h and isinstance(n.ctx, ast.Load) for n in ast.walk(f))]
            und = any(has_unknown(x) or any(y is want for y in subterms(x)) for x in args.values())
            T.ob('reach', k, True if used else None if und and not hits else False, e.where(), '' if used else 'the scene is not built with the gap that was given')


def run_commands(sh):
    """[(command, program word, words behind it)]"""
    out = []
    for c in sh.commands:
        for i, w in enumerate(c.words):
            l = w.lit()
            if l and l.endswith('.py') and i and (c.words[i - 1].lit() or '').split('/')[-1].startswith('python'):
                out.append((c, l, c.words[i + 1:]))
    return out


def program_of(path, progs):
    rel = os.path.normpath(os.path.join(BASE, path))
    for (w, fl), P in progs.items():
        if P.rel == rel and not fl:
            return P
    return None


def submitted(T, L, job, shells, progs):
    e, sopts, script, arg = job
    tag = os.path.basename(L.rel)[:-3]
    where = e.where()
    if script is None:
        T.ob('script', tag, None, where, 'the submitted script is not constant')
        return
    name = os.path.basename(script)
    sh = shells.get(name)
    if sh is None:
        exists = os.path.exists(os.path.join(repo().root, BASE, script))
        T.ob('script', '%s %s' % (tag, script), None if exists else False, where, '%s starts no program' % script if exists else '%s does not exist' % script)
        return
    if os.path.normpath(script) != name:
        T.ob('script', '%s %s' % (tag, script), os.path.exists(os.path.join(repo().root, BASE, script)), where, script)
    if sh.unread is not None:
        T.ob('script', '%s %s' % (tag, script), None, sh.rel, 'script not understood: %s' % sh.unread)
        return
    runs = run_commands(sh)
    used = {k for c, _, rest in runs for w in rest for k in positionals(w)} | {
        k for c, _, _ in runs for p, t in c.conds if t is not None for x in (t[0], t[2]) for k in positionals(x)}
    miss = sorted(k for k in used if k not in arg)
    T.ob('script', '%s arguments of %s' % (tag, name), not miss, where, 'the script reads argument %s, %d are passed' % (miss, len(arg)) if miss else '')
    live, openc = [], False
    for c, path, rest in runs:
        r = [holds(x, arg) for x in c.conds if task_test(x) is None]
        if False in r:
            continue
        if None in r:
            openc = True
        live.append((c, path, rest))
    n = len(live)
    T.ob('script', '%s mode of %s' % (tag, name), True if n == 1 and not openc else None if openc else False, where,
         '' if n == 1 else '%d programs are started for arguments %s' % (n, ' '.join(show(a)[:30] for a in arg.values())))
    lab = L.names.get(script, {})
    tested = {k for c, _, _ in runs for p, t in c.conds if t is not None for x in (t[0], t[2]) for k in positionals(x)}
    dests, declared = {}, set()
    for c, path, rest in runs:
        P = program_of(path, progs)
        if P is None:
            continue
        declared |= set(P.opts.opts)
        for flag, o, parts in command_options(rest, P.opts):
            if isinstance(o, dict) and parts is not None and len(parts) == 1 and parts[0][0] == 'var' and parts[0][1].isdigit():
                dests.setdefault(int(parts[0][1]), set()).add(o['dest'])
    for k, v in lab.items():
        mine = dests.get(k, set())
        other = [j for j, ds in dests.items() if j != k and key(v) in ds]
        if key(v) in mine:
            T.ob('order', '%s %s argument %d' % (tag, name, k), True, where)
        elif mine and key(v) in declared:
            T.ob('order', '%s %s argument %d' % (tag, name, k), False, where, '%s is passed as argument %d, which the script passes on as --%s' % (v, k, sorted(mine)[0]))
        elif other:
            T.ob('order', '%s %s argument %d' % (tag, name, k), False, where, '%s is passed as argument %d, the script reads it as argument %d' % (v, k, other[0]))
    unnamed(T, L, tag, name, lab, where)
    for c, path, rest in live:
        P = program_of(path, progs)
        if P is None:
            continue
        got = {}
        for flag, o, parts in command_options(rest, P.opts):
            if isinstance(o, dict):
                got[o['dest']] = parts
                if parts is not None:
                    r = representable(option_type(o), parts, c.loops, arg)
                    T.ob('value', '%s %s %s' % (tag, name, flag), r, where, '' if r else '%s is given %s, of type %s' % (
                        flag, ' '.join(show(arg[int(s)])[:60] if k == 'var' and s.isdigit() and int(s) in arg else s for k, s in parts), option_type(o)))
        if 'min_samples' in got and 'max_samples' in got:
            lo, hi = [bounds_value(got[x], arg) for x in ('min_samples', 'max_samples')]
            r = at_most(L, e, lo, hi) if lo is not None and hi is not None else None
            T.ob('range', '%s %s' % (tag, name), r, where, '' if r else 'samples from %s to %s' % (show(lo)[:60] if lo is not None else '?', show(hi)[:60] if hi is not None else '?'))
        for k in tested:
            v = lab.get(k)
            if v is None:
                continue
            fl = [d for d, o in P.opts.opts.items() if not takes_value(o) and (d == key(v) or d.startswith(key(v) + '_'))]
            x = arg.get(k)
            m = cval(number_of(x)) if x is not None and number_of(x) is not None else None
            if len(fl) == 1 and m is not None and m in (0, 1):
                ok = (fl[0] in got) == (m == 1)
                T.ob('order', '%s %s %s is %d' % (tag, name, v, m), ok, where, '' if ok else '%s = %d starts the program %s --%s' % (
                    v, m, 'with' if fl[0] in got else 'without', fl[0].replace('_', '-')))
        tasks(T, tag, name, sh, c, sopts, where, got)


def unnamed(T, L, tag, name, lab, where):
    """argument sets written out with the names of the parameters they are passed for"""
    f = getattr(L, 'func', None)
    if f is None:
        return
    ps = [a.arg for a in f.args.args]
    k = len(ps) - len(f.args.defaults)
    inside = {id(x) for x in ast.walk(f)}
    for n in ast.walk(L.s.m.tree):
        els = None
        if id(n) in inside:
            continue
        if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) in range(k, len(ps) + 1) and len(n.elts) > 1:
            els = n.elts
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == f.name and not any(isinstance(a, ast.Starred) for a in n.args):
            els = n.args
        if not els:
            continue
        for i, x in enumerate(els):
            v = x.id if isinstance(x, ast.Name) else None
            if v in ps and ps.index(v) < k:
                ok = ps.index(v) == i
                T.ob('order', '%s %s for parameter %s' % (tag, v, ps[i] if i < len(ps) else i), ok, '%s:%d' % (L.rel, n.lineno),
                     '' if ok else '%s is passed for parameter %s' % (v, ps[i]))


def bounds_value(parts, arg):
    if parts is None or len(parts) != 1:
        return None
    k, s = parts[0]
    if k == 'lit':
        return num(int(s)) if re.match(r'-?\d+$', s) else None
    if k == 'var' and s.isdigit() and int(s) in arg:
        return number_of(arg[int(s)])
    return None


def at_most(L, e, lo, hi):
    """lo <= hi, from the bounds of the uniform draws they are made of"""
    facts = []
    d = sub(hi, lo)
    draws = {}
    for x in L.s.events:
        if x.name in ('random.uniform', 'random.randint', 'numpy.random.uniform', 'random.randrange') and isinstance(x.result, T_) and contains(d, lambda y: y is x.result) and len(x.args) == 2:
            a, b = x.args
            z = sym('draw:%d' % len(draws), 'i' if 'rand' in x.name.split('.')[-1] else '')
            draws[x.result] = z
            facts += [le(a, z), le(z, b)]
    if any(y.op == 'call' for y in subterms(subst(d, draws) if draws else d)):
        return None
    d = subst(d, draws) if draws else d
    m = {}
    for y in list(subterms(d)):
        if y.op == 'int' and y not in m:
            z = sym('whole:%d' % len(m), 'i')
            m[y] = z
            if imp(andd(*facts), le(ZERO, y.args[0])) is not True:
                return None
            facts += [le(z, y.args[0]), lt(sub(y.args[0], ONE), z), le(ZERO, z)]
    d = subst(d, m) if m else d
    f = andd(*facts)
    if imp(f, le(ZERO, d)) is True:
        return True
    if imp(f, lt(d, ZERO)) is True:
        return False
    return None


def tasks(T, tag, name, sh, c, sopts, where, got):
    """the loop over seeds starts one run per task of the array"""
    k = '%s %s' % (tag, name)
    a = sopts.get('array')
    tests = [task_test(x) for x in c.conds]
    cnt = [x for x in tests if x]
    w = '%s:%d' % (sh.rel, c.line)
    m = re.match(r'(\d+)-(\d+)(%\d+)?$', a or '')
    if m is None or len(cnt) != 1:
        T.ob('task', k, None, w, 'the tasks of the array were not recognised')
        return
    lo, hi = int(m.group(1)), int(m.group(2))
    var = cnt[0]
    sizes = []
    seedvar = None
    sp = got.get('seed')
    if sp is not None and len(sp) == 1 and sp[0][0] == 'var':
        seedvar = sp[0][1]
    rng = None
    for n, items, _ in c.loops:
        sz = 0
        for it in items:
            r = seq_range(it)
            if r:
                sz += max(0, r[1] - r[0] + 1)
                if n == seedvar and len(items) == 1:
                    rng = r
            elif it.lit() is not None:
                sz += 1
            else:
                T.ob('task', k, None, w, 'the loops of the script were not recognised')
                return
        sizes.append((n, sz))
    if seedvar is None or seedvar not in [n for n, _ in sizes]:
        if sp is None:
            T.ob('task', k, False, w, 'no seed is passed: every task runs unseeded')
        else:
            T.ob('task', k, None, w, 'the seed is not a loop variable')
        return
    total = 1
    for n, z in sizes:
        total *= z
    if var in [n for n, _ in sizes]:
        # the task number is compared with a loop variable itself
        r = next((seq_range(it[0]) for n, it, _ in c.loops if n == var and len(it) == 1), None)
        ok = r is not None and r[0] <= lo and hi <= r[1] and total == dict(sizes)[var]
        T.ob('task', k, True if ok else None if r is None else False, w, '' if ok else 'tasks %d to %d, the script runs %s' % (lo, hi, r))
        return
    starts = [x for x in sh.counters if x[0] == var and isinstance(x[1], tuple)]
    incs = [x for x in sh.counters if x[0] == var and not isinstance(x[1], tuple)]
    if len(starts) != 1 or len(incs) != 1:
        T.ob('task', k, None if len(incs) != 0 else False, w, 'the counter %s is not counted once per run' % var)
        return
    s0, inc = starts[0][1][1], incs[0]
    same_loops = [x[0] for x in inc[3]] == [x[0] for x in c.loops]
    if inc[2] or not same_loops:
        T.ob('task', k, None if not inc[3] or inc[2] else False, w, 'the counter %s is not counted once per run' % var)
        return
    first = s0 if inc[4] > c.line else s0 + inc[1]
    values = range(first, first + inc[1] * total, inc[1])
    bad = [t for t in range(lo, hi + 1) if t not in values]
    others = [z for n, z in sizes if n != seedvar]
    dup = any(z > 1 for z in others)
    T.ob('task', k, not bad and (True if not dup else None), w, 'task %d of the array starts nothing' % bad[0] if bad else '' if not dup else 'a seed is run by several tasks')
    if rng is not None:
        T.ob('task', k + ' seeds', rng[0] >= 0, w, '' if rng[0] >= 0 else 'seed %d is negative and leaves the run unseeded' % rng[0])


def script_alone(T, name, sh, progs):
    if sh.unread is not None:
        T.ob('script', name, None, sh.rel, 'script not understood: %s' % sh.unread)
        return
    for c, path, rest in run_commands(sh):
        w = '%s:%d' % (sh.rel, c.line)
        rel = os.path.normpath(os.path.join(BASE, path))
        if not os.path.exists(os.path.join(repo().root, rel)):
            T.ob('script', '%s starts %s' % (name, path), False, w, '%s does not exist' % rel)
            continue
        P = program_of(path, progs)
        T.ob('script', '%s starts %s' % (name, path), True if P is not None else None, w, '')
        if P is None:
            continue
        first = program_of(run_commands(sh)[0][1], progs)
        T.ob('script', '%s starts one program' % name, P is first, w, '' if P is first else 'one script starts %s and %s' % (first.rel if first else '?', P.rel))
        lib = any(e.name.split('.')[-1] == 'create_parser' for e in P.s.events)
        for flag, o, parts in command_options(rest, P.opts):
            k = '%s:%s %s' % (name, 'adaptive' if any('adaptive' in repr(x) for x in rest) else 'range', flag)
            if o == 'word':
                T.ob('option', k, False if not flag.startswith('$') else None, w, 'the program takes no argument %s' % flag)
                continue
            if o is None:
                libo = next((t for fs, t in LIBRARY_OPTIONS.values() if flag in fs), None) if lib else None
                ok = libo is not None and libo == (parts is not None)
                T.ob('option', k, ok, w, '' if ok else '%s is not an option of %s' % (flag, path))
                continue
            tv = takes_value(o)
            ok = tv == (parts is not None)
            T.ob('option', k, ok, w, '' if ok else '%s %s a value' % (flag, 'is passed without' if tv else 'does not take'))
            if parts is not None and not any(p[0] == 'var' and p[1].isdigit() for p in parts):
                r = representable(option_type(o), parts, c.loops, {})
                T.ob('value', k, r, w, '' if r else '%s is given %s' % (flag, parts))
