#!/usr/bin/env python3
"""mutate.py OUT.jsonl [-n N] [-s SEED] [-j JOBS] [--size K] [FILES..]: systematic mutation of menpofit on scratch copies.

Every mutant changes one expression or statement of a function; it is killed when one of the checks whose
properties are anchored in its file (MAP below) reports a violation.  Survivors are written with their diff, for a person
to sort into equivalent changes and gaps.  With --size K the changes only show on inputs of more than K items: loops that end
after K items, assigned arrays whose entries after the K-th (first or last axis) are zero.  Nothing here is read by any check."""
import ast, copy, json, os, random, re, shutil, subprocess, sys, tempfile, threading, warnings
from concurrent.futures import ThreadPoolExecutor
REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
    ('transform/homogeneous', 'C01'), ('transform/piecewise', 'C02'), ('transform/thin', 'C02'), ('transform/rbf', 'C02'),
    ('differentiable', 'C01,C02'), ('modelinstance', 'C04,C03,C05'), ('transform/modeldriven', 'C05,C04'),
    ('lk/residual', 'C06'), ('lk/algorithm', 'C07'), ('lk/fitter', 'C12'), ('lk/result', 'C13,C12'),
    ('aam/algorithm/lk', 'C08,C09,C10,C11'), ('aam/algorithm/sd', 'C19'), ('aam/base', 'C26,C27'), ('aam/fitter', 'C27,C19'),
    ('aam/result', 'C13,C27'), ('aps/result', 'C13,C27,C22'), ('unified_aam_clm/result', 'C13,C27'), ('result', 'C13'),
    ('error/', 'C14,C15'), ('checks', 'C16'), ('fitter', 'C12,C25'), ('math/regression', 'C17'), ('math/', 'C18'),
    ('sdm/', 'C19'), ('clm/expert', 'C20'), ('clm/algorithm', 'C20'), ('clm/fitter', 'C20,C27'), ('clm/base', 'C26,C27'),
    ('base', 'C20'), ('atm/algorithm', 'C21'), ('atm/', 'C26,C27'), ('aps/algorithm', 'C22'), ('aps/', 'C26,C27'),
    ('unified_aam_clm/algorithm', 'C23'), ('unified_aam_clm/', 'C26,C27'), ('builder', 'C24,C26'), ('io', 'C28'),
    ('dlib/', 'C29'), ('visualize/', 'C30')]
warnings.simplefilter('ignore')
SKIP = re.compile(r'verbose|print_|prefix|warnings|__str__|_str_title|\bmsg\b|raise |ValueError|render_|marker_|line_|legend|axes_|figure|tmp_out|import ')
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div}
FUN = {'sum': 'mean', 'mean': 'sum', 'max': 'min', 'min': 'max', 'vstack': 'hstack', 'hstack': 'vstack', 'zeros': 'ones', 'ones': 'zeros',
       'ceil': 'floor', 'floor': 'ceil', 'fft2': 'ifft2', 'ifft2': 'fft2', 'sqrt': 'abs', 'norm': 'sum', 'append': 'extend', 'range': None}


def variants(node):
    """(replacement node) for one node"""
    out = []
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        t = CMP.get(type(node.ops[0]))
        if t:
            m = copy.deepcopy(node); m.ops = [t()]; out.append(m)
    if isinstance(node, ast.BinOp):
        t = BIN.get(type(node.op))
        if t and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            m = copy.deepcopy(node); m.op = t(); out.append(m)
            out.append(copy.deepcopy(node.left)); 
            if isinstance(node.op, (ast.Mult, ast.Add)):
                out.append(copy.deepcopy(node.right))
    if isinstance(node, ast.BoolOp):
        m = copy.deepcopy(node); m.op = ast.Or() if isinstance(node.op, ast.And) else ast.And(); out.append(m)
        out.append(copy.deepcopy(node.values[0])); out.append(copy.deepcopy(node.values[-1]))
    if isinstance(node, ast.UnaryOp):
        out.append(copy.deepcopy(node.operand))
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            out.append(ast.Constant(not v))
        elif isinstance(v, int):
            out.append(ast.Constant(v + 1));
            if v > 0: out.append(ast.Constant(v - 1))
        elif isinstance(v, float):
            out.append(ast.Constant(v * 2 + 0.5))
        elif v is None:
            pass
    if isinstance(node, ast.Subscript) and isinstance(node.ctx, ast.Load):
        s = node.slice
        if isinstance(s, ast.Name):
            for c in (0, -1):
                m = copy.deepcopy(node); m.slice = ast.Constant(c); out.append(m)
        if isinstance(s, ast.Slice):
            m = copy.deepcopy(node); m.slice = ast.Slice(None, None, None); out.append(m)
    if isinstance(node, ast.Call):
        f = node.func
        if isinstance(f, ast.Attribute):
            if f.attr in ('copy', 'ravel', 'as_vector', 'dot', 'conj') and f.attr in ('copy',) and not node.args:
                out.append(copy.deepcopy(f.value))
            if FUN.get(f.attr):
                m = copy.deepcopy(node); m.func.attr = FUN[f.attr]; out.append(m)
        for k, kw in enumerate(node.keywords):
            if kw.arg and not SKIP.search(kw.arg):
                m = copy.deepcopy(node); del m.keywords[k]; out.append(m)
            if kw.arg is None:
                m = copy.deepcopy(node); del m.keywords[k]; out.append(m)
        if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
            m = copy.deepcopy(node); m.args[0], m.args[1] = m.args[1], m.args[0]; out.append(m)
        if isinstance(f, ast.Name) and f.id == 'range' and len(node.args) == 1:
            m = copy.deepcopy(node); m.args[0] = ast.BinOp(node.args[0], ast.Sub(), ast.Constant(1)); out.append(m)
            out.append(ast.Call(ast.Name('reversed', ast.Load()), [copy.deepcopy(node)], []))
        if isinstance(f, ast.Name) and f.id in ('list', 'reversed', 'abs') and len(node.args) == 1:
            out.append(copy.deepcopy(node.args[0]))
    if isinstance(node, ast.Attribute) and node.attr == 'T' and isinstance(node.ctx, ast.Load):
        out.append(copy.deepcopy(node.value))
    if isinstance(node, ast.IfExp):
        out.append(copy.deepcopy(node.body)); out.append(copy.deepcopy(node.orelse))
    if isinstance(node, ast.Tuple) and isinstance(node.ctx, ast.Load) and len(node.elts) == 2:
        m = copy.deepcopy(node); m.elts.reverse(); out.append(m)
    return out


SIZE = 0
ARR = ("(lambda _a: _a if not (hasattr(_a, 'ndim') and hasattr(_a, 'dtype') and _a.ndim > %d and _a.shape[%d] > %d) or _a.dtype == bool"
       " else __import__('numpy').concatenate([_a[%s:%d], _a[%s%d:] * 0], axis=%d))(%s)")


def size_texts(node):
    """(expression node, replacement text) of one statement or comprehension"""
    if isinstance(node, (ast.For, ast.comprehension)):
        yield node.iter, 'list(%s)[:%d]' % (ast.unparse(node.iter), SIZE)
    v = node.value if isinstance(node, (ast.Assign, ast.Return)) and node.value is not None else None
    if v is not None and not re.search(r'\bnp\.|\.dot\(|einsum|solve|project|points|pixels|as_vector|\.T\b|error|fft|warp|jacobian|gradient|pad\(|crop\(|\[', ast.unparse(v)):
        return
    if v is not None and not isinstance(v, (ast.Constant, ast.Name, ast.Tuple, ast.List, ast.ListComp, ast.Lambda, ast.Compare, ast.Dict, ast.JoinedStr)):
        t = ast.unparse(v)
        yield v, ARR % (0, 0, SIZE, '', SIZE, '', SIZE, 0, t)
        yield v, ARR % (1, -1, SIZE, '..., ', SIZE, '..., ', SIZE, -1, t)


def offsets(src):
    o = [0]
    for l in src.encode().splitlines(True):
        o.append(o[-1] + len(l))
    return o


def mutants(path):
    src = open(path).read()
    raw, off = src.encode(), offsets(src)
    lines = src.splitlines()
    tree = ast.parse(src)
    out = []

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def emit(n, text):
        a, b = span(n)
        new = raw[:a] + text.encode() + raw[b:]
        if new != raw:
            out.append((n.lineno, raw[a:b].decode(), text, new.decode()))

    def visit(n, infun):
        if isinstance(n, ast.FunctionDef):
            if n.name in ('__str__', '_str_title', 'view_iterations_widget') or n.name.endswith('_str_') or '_str' in n.name or n.name.startswith('print_'):
                return
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            for s in body:
                visit(s, n)
            return
        if isinstance(n, ast.ClassDef):
            for s in n.body:
                visit(s, None)
            return
        if infun is None:
            return
        if isinstance(n, ast.stmt):
            text = ' '.join(lines[n.lineno - 1:n.end_lineno])
            simple = isinstance(n, (ast.Assign, ast.Expr, ast.AugAssign, ast.Return, ast.Raise))
            if isinstance(n, ast.Raise) or isinstance(n, (ast.Import, ast.ImportFrom)):
                return
            if simple and SKIP.search(text) and not isinstance(n, ast.Return):
                if 'verbose=' not in text:
                    return
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                return
            if SIZE:
                pass
            elif isinstance(n, (ast.Expr, ast.AugAssign)) or isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                emit(n, 'pass')
            if isinstance(n, ast.If) and not SIZE:
                emit(n.test, 'not (%s)' % ast.unparse(n.test))
                if n.orelse == []:
                    emit(n.test, 'True'); 
                emit(n.test, 'False')
        if SIZE:
            for e, t in size_texts(n):
                emit(e, t)
        for v in () if SIZE else variants(n):
            t = ast.unparse(ast.fix_missing_locations(v))
            if isinstance(v, (ast.BinOp, ast.BoolOp, ast.Compare, ast.UnaryOp, ast.IfExp)) or isinstance(n, (ast.Tuple,)) and not t.startswith('('):
                t = '(%s)' % t
            emit(n, t)
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.expr_context, ast.operator, ast.cmpop)):
                visit(c, infun)
    for s in tree.body:
        visit(s, None)
    seen, res = set(), []
    for m in out:
        if m[3] not in seen:
            try:
                ast.parse(m[3])
            except SyntaxError:
                continue
            seen.add(m[3]); res.append(m)
    return res


def checks_of(f):
    for k, v in MAP:
        if f.startswith(k) or ('/' not in k and f == k + '.py'):
            return v.split(',')
    return []


def run(args):
    f, (line, old, new, text), out, lock, tests = args
    D = tempfile.mkdtemp(prefix='mu', dir='/tmp')
    try:
        r = D + '/r'
        shutil.copytree(REPO, r, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        open(os.path.join(r, 'menpofit', f), 'w').write(text)
        res, rc = [], 0
        for c in checks_of(f):
            try:
                p = subprocess.run(['./run.py', c], cwd=VERIF, env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=D), capture_output=True, text=True, timeout=300)
                rc = p.returncode if p.returncode != 1 or 'VIOLATION' in p.stdout else 98
            except subprocess.TimeoutExpired:
                rc = 99
            res.append((c, rc))
            if rc == 1:
                break
        st = 'killed' if rc == 1 else 'survived'
        t = ''
        if st == 'survived':
            t = subprocess.run('PYTHONPATH=$PWD timeout 120 /opt/venv/bin/python -m pytest -q -x menpofit 2>&1 | tail -1', shell=True, cwd=r, capture_output=True, text=True).stdout.strip()
            if '11 passed' not in t:
                st = 'tests'
        with lock:
            with open(out, 'a') as o:
                o.write(json.dumps(dict(file=f, line=line, old=old, new=new, status=st, checks=res)) + '\n')
    finally:
        shutil.rmtree(D, ignore_errors=True)


def main():
    a = sys.argv[1:]
    out = a.pop(0)
    n, seed, jobs, files = None, 1, 3, []
    while a:
        x = a.pop(0)
        if x == '-n': n = int(a.pop(0))
        elif x == '-s': seed = int(a.pop(0))
        elif x == '-j': jobs = int(a.pop(0))
        elif x == '--size': globals()['SIZE'] = int(a.pop(0))
        else: files.append(x)
    if not files:
        for d, _, fs in os.walk(REPO + '/menpofit'):
            for x in fs:
                f = os.path.relpath(os.path.join(d, x), REPO + '/menpofit')
                if x.endswith('.py') and 'test' not in f and x not in ('__init__.py', '_version.py', 'pretrained.py'):
                    files.append(f)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l); done.add((d['file'], d['line'], d['old'], d['new']))
    todo = []
    for f in sorted(files):
        ms = mutants(os.path.join(REPO, 'menpofit', f))
        print(f, len(ms), checks_of(f))
        todo += [(f, m) for m in ms]
    print('total', len(todo))
    random.Random(seed).shuffle(todo)
    todo = [(f, m) for f, m in todo if (f,) + tuple(m[:3]) not in done]
    if n is not None:
        todo = todo[:n]
    lock = threading.Lock()
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(run, [(f, m, out, lock, True) for f, m in todo]))


if __name__ == '__main__':
    main()
