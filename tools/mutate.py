"""Systematic mutants of one source file: mutate.py FILE IDS [OUT] [--fn NAME,...] [--sample N]
Every mutant is a one-place edit of the syntax tree; the checks IDS run on a copy with it until one reports a violation.
Survivors are listed with the edit, for reading: an equivalent mutant, one outside the properties, or a miss."""
import ast, copy, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult,
       ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
NAMES = {'min': 'max', 'max': 'min', 'argmin': 'argmax', 'argmax': 'argmin', 'any': 'all', 'all': 'any', 'floor': 'ceil', 'ceil': 'floor', 'zeros': 'ones',
         'ones': 'zeros', 'append': 'extend', 'extend': 'append', 'sin': 'cos', 'cos': 'sin', 'minimum': 'maximum', 'maximum': 'minimum', 'vstack': 'hstack', 'hstack': 'vstack', 'copy': 'view',
         'sum': 'prod', 'prod': 'sum', 'start': 'end', 'end': 'start', 'lower': 'upper', 'upper': 'lower', 'intersects': 'contains', 'contains': 'intersects', 'int': 'round', 'range': 'reversed', 'log': 'exp', 'abs': 'float', 'logical_and': 'logical_or', 'logical_or': 'logical_and'}


def mutants(src, fns=None):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    out = []

    def put(n, new, what):
        i, j = span(n)
        text = new if isinstance(new, str) else ast.unparse(new)
        if not isinstance(n, ast.stmt) and not isinstance(new, str) and not isinstance(new, (ast.Name, ast.Constant, ast.Attribute, ast.Call, ast.Subscript)):
            text = '(' + text + ')'
        m = (b[:i] + text.encode() + b[j:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            return
        out.append((n.lineno, what, b[i:j].decode().replace('\n', ' ')[:70] + '  ->  ' + text.replace('\n', ' ')[:70], m))

    def skip(n):
        return isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'print')

    def walk(n, inside, names):
        if skip(n) or isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.Assert)):
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            inside = inside or fns is None or n.name in fns
            if isinstance(n, ast.FunctionDef):
                names = [a.arg for a in n.args.args if a.arg != 'self']
            for d in (n.args.defaults if isinstance(n, ast.FunctionDef) else []):
                walk(d, inside, names)
            for c in n.body:
                walk(c, inside, names)
            return
        if inside:
            one(n, names)
        for f, c in ast.iter_fields(n):
            if f in ('annotation', 'returns'):
                continue
            for x in (c if isinstance(c, list) else [c]):
                if isinstance(x, ast.AST):
                    walk(x, inside, names)

    def one(n, names):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in [CMP[type(n.ops[0])]] + ([ast.GtE] if isinstance(n.ops[0], ast.Lt) else [ast.LtE] if isinstance(n.ops[0], ast.Gt) else []):
                m = copy.deepcopy(n)
                m.ops = [op()]
                put(n, m, 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            put(n, m, 'bin')
            if isinstance(n.op, (ast.Add, ast.Sub)):
                put(n, n.left, 'drop')
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
            put(n, m, 'bool')
            for k in range(len(n.values)):
                m = copy.deepcopy(n)
                del m.values[k]
                put(n, m.values[0] if len(m.values) == 1 else m, 'dropcond')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, n.operand, 'unary')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                put(n, repr(not v), 'const')
            elif isinstance(v, int):
                put(n, repr(v + 1), 'const')
                if v > 0:
                    put(n, repr(v - 1), 'const')
            elif isinstance(v, float):
                put(n, repr(v * 2 if v else 1.0), 'const')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            put(n.test, ast.UnaryOp(ast.Not(), n.test), 'negate')
        elif isinstance(n, (ast.Expr, ast.AugAssign)):
            put(n, 'pass', 'delete')
        elif isinstance(n, ast.Continue):
            put(n, 'break', 'continue')
        elif isinstance(n, ast.Break):
            put(n, 'pass', 'break')
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                m = copy.deepcopy(n)
                m.args[0], m.args[1] = m.args[1], m.args[0]
                put(n, m, 'swap')
                if len(n.args) >= 3:
                    m = copy.deepcopy(n)
                    m.args[-1], m.args[-2] = m.args[-2], m.args[-1]
                    put(n, m, 'swap')
            for k in range(len(n.keywords)):
                m = copy.deepcopy(n)
                del m.keywords[k]
                put(n, m, 'dropkw')
            if isinstance(n.func, ast.Attribute) and n.func.attr in NAMES:
                m = copy.deepcopy(n)
                m.func.attr = NAMES[n.func.attr]
                put(n, m, 'name')
            elif isinstance(n.func, ast.Name) and n.func.id in NAMES:
                m = copy.deepcopy(n)
                m.func.id = NAMES[n.func.id]
                put(n, m, 'name')
        elif isinstance(n, ast.Attribute) and n.attr in NAMES and isinstance(n.ctx, ast.Load):
            put(n, ast.Attribute(n.value, NAMES[n.attr], ast.Load()), 'name')
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1:
            put(n, names[(names.index(n.id) + 1) % len(names)], 'var')
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                put(n.lower, '', 'slice') if n.upper is not None else None
            if n.upper is not None:
                put(n.upper, '', 'slice') if n.lower is not None else None
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and not isinstance(n.targets[0], ast.Name):
            put(n, 'pass', 'delete')
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n, 'return None', 'return')
    for c in tree.body:
        walk(c, fns is None, [])
    seen, res = set(), []
    for m in out:
        if m[3] not in seen and m[3] != src:
            seen.add(m[3])
            res.append(m)
    return res


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    o = {x.split('=')[0][2:]: x.split('=')[1] for x in sys.argv[1:] if x.startswith('--')}
    rel, ids = a[0], a[1].split(',')
    src = open('/repo/' + rel).read()
    ms = mutants(src, set(o['fn'].split(',')) if 'fn' in o else None)
    if 'sample' in o:
        random.Random(int(o.get('seed', 1))).shuffle(ms)
        ms = sorted(ms[:int(o['sample'])])
    base = tempfile.mkdtemp(prefix='mut', dir='/tmp')

    def run(k):
        line, what, show, text = ms[k]
        w = '%s/%d' % (base, k)
        shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('.git', 'temp', '*.ipynb', '*.pdf', '*.gif', '__pycache__', '*.pkl'))
        open(w + '/' + rel, 'w').write(text)
        got = []
        try:
            for i in ids:
                ev = w + '.ev'
                os.makedirs(ev, exist_ok=True)
                try:
                    p = subprocess.run(['python3-vt', os.environ.get('CHECK', '/verif/check.py'), i], capture_output=True, text=True, timeout=200, env=dict(os.environ, NMP_REPO=w, NMP_EVDIR=ev))
                except subprocess.TimeoutExpired:
                    got.append(i + ':timeout')
                    continue
                if p.returncode == 1:
                    return k, [i], True
                if 'UNDECIDED' in p.stdout:
                    got.append(i + ':u')
            return k, got, False
        finally:
            shutil.rmtree(w, ignore_errors=True)
            shutil.rmtree(w + '.ev', ignore_errors=True)
    killed = 0
    with ThreadPoolExecutor(int(o.get('j', 8))) as ex:
        for k, got, dead in ex.map(run, range(len(ms))):
            if dead:
                killed += 1
                if 'all' in o:
                    print('K %d %s %s [%s]' % (ms[k][0], ms[k][1], ms[k][2], got[0]))
            else:
                print('S %d %s: %s  [%s]' % (ms[k][0], ms[k][1], ms[k][2], ' '.join(got)))
            sys.stdout.flush()
    print('%s: %d mutants, %d reported' % (rel, len(ms), killed))
    shutil.rmtree(base, ignore_errors=True)


main()
