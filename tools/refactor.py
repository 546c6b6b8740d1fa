#!/usr/bin/env python3
"""refactor.py REPO_COPY MODE: rewrite every function of menpofit in a scratch copy without changing what it does.

MODES: extract (bodies move to private helpers), temps (results, conditional expressions and comprehensions spelled out),
names (locals renamed, branches flipped, counted loops as while), numpy (other spellings of the same array operations),
inline (temporaries used once disappear, independent assignments change places).  Every check has to stay quiet on the result;
nothing here is read by any check."""
import ast, copy, os, sys


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)


def fresh(fn, base):
    used = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)} | {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    k = 0
    while '%s_%d' % (base, k) in used:
        k += 1
    return '%s_%d' % (base, k)


def has(fn, *types):
    return any(isinstance(n, types) for n in ast.walk(fn))


# ---------------------------------------------------------------- extract
def forward(fn, skip_self):
    a = fn.args
    args, kws = [], []
    pos = a.posonlyargs + a.args
    for x in pos[1 if skip_self else 0:]:
        args.append(ast.Name(x.arg, ast.Load()))
    if a.vararg:
        args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
    for x in a.kwonlyargs:
        kws.append(ast.keyword(x.arg, ast.Name(x.arg, ast.Load())))
    if a.kwarg:
        kws.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
    return args, kws


def extract(tree):
    def one(fn, cls):
        deco = [ast.unparse(d) for d in fn.decorator_list]
        if 'staticmethod' in deco or 'classmethod' in deco or fn.name in ('__new__',) or any('abstract' in d for d in deco):
            return [fn]
        if has(fn, ast.Yield, ast.YieldFrom):
            return [fn]
        body = fn.body[1:] if is_doc(fn.body[0]) else fn.body
        if len(body) < 2:
            return [fn]
        kind = 'set' if any(d.endswith('.setter') for d in deco) else 'get' if deco else 'do'
        name = '_%s_%s_%s' % (kind, fn.name.replace('__', 'special_'), cls.name if cls else 'impl')
        h = copy.deepcopy(fn)
        h.name, h.decorator_list, h.body = name, [], body
        for d in (h.args,):
            d.defaults, d.kw_defaults = [], [None] * len(d.kwonlyargs)
        args, kws = forward(fn, cls is not None)
        f = ast.Name(name, ast.Load()) if cls is None else \
            ast.Attribute(ast.Name(fn.args.args[0].arg, ast.Load()), name, ast.Load())
        fn.body = (fn.body[:1] if is_doc(fn.body[0]) else []) + [ast.Return(ast.Call(f, args, kws))]
        return [h, fn]

    def walk(body, cls):
        out = []
        for s in body:
            if isinstance(s, ast.FunctionDef):
                out += one(s, cls)
            else:
                if isinstance(s, ast.ClassDef):
                    s.body = walk(s.body, s)
                out.append(s)
        return out
    tree.body = walk(tree.body, None)
    # setters must stay next to their property: helpers may stand between, names do not clash
    return tree


# ---------------------------------------------------------------- temps
class Temps(object):
    def block(self, body, fn):
        out = []
        for s in body:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, self.block(b, fn))
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                n = fresh(fn, 'result')
                out += self.assign(n, s.value, fn) + [ast.Return(ast.Name(n, ast.Load()))]
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                out += self.assign(s.targets[0].id, s.value, fn)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and not \
                    isinstance(s.value, (ast.Name, ast.Constant)):
                n = fresh(fn, 'value')
                out += self.assign(n, s.value, fn)
                s.value = ast.Name(n, ast.Load())
                out.append(s)
            else:
                out.append(s)
        return out

    def assign(self, name, value, fn):
        tgt = ast.Name(name, ast.Store())
        if isinstance(value, ast.IfExp):
            return [ast.If(value.test, self.assign(name, value.body, fn), self.assign(name, value.orelse, fn))]
        if isinstance(value, ast.ListComp) and len(value.generators) == 1 and not value.generators[0].is_async:
            g = value.generators[0]
            ids = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            ren = {i: fresh(fn, 'each_' + i) for i in ids}

            class Rn(ast.NodeTransformer):
                def visit_Name(self, n):
                    n.id = ren.get(n.id, n.id)
                    return n
            if any(isinstance(n, (ast.Lambda, ast.comprehension)) for n in ast.walk(value.elt)):
                return [ast.Assign([tgt], value)]
            acc = fresh(fn, 'items')
            if acc == name:
                acc += 'x'
            add = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), 'append', ast.Load()), [Rn().visit(value.elt)], []))
            body = [add]
            for c in reversed(g.ifs):
                body = [ast.If(Rn().visit(c), body, [])]
            return [ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load())),
                    ast.For(Rn().visit(g.target), g.iter, body, []), ast.Assign([tgt], ast.Name(acc, ast.Load()))]
        if isinstance(value, ast.BinOp) and isinstance(value.left, (ast.BinOp, ast.Call)):
            n = fresh(fn, 'part')
            if n == name:
                n += 'x'
            return [ast.Assign([ast.Name(n, ast.Store())], value.left),
                    ast.Assign([tgt], ast.BinOp(ast.Name(n, ast.Load()), value.op, value.right))]
        if isinstance(value, ast.Call) and value.args and isinstance(value.args[0], (ast.Call, ast.BinOp)) and \
                isinstance(value.func, (ast.Name, ast.Attribute)) and not has(value.func, ast.Call):
            n = fresh(fn, 'arg')
            if n == name:
                n += 'x'
            first = value.args[0]
            value.args[0] = ast.Name(n, ast.Load())
            return [ast.Assign([ast.Name(n, ast.Store())], first), ast.Assign([tgt], value)]
        return [ast.Assign([tgt], value)]


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            yield n


def temps(tree):
    for fn in list(functions(tree)):
        fn.body = Temps().block(fn.body, fn)
    return tree


# ---------------------------------------------------------------- names
def names(tree):
    tops = [n for n in tree.body if isinstance(n, ast.FunctionDef)] + \
        [m for n in tree.body if isinstance(n, ast.ClassDef) for m in n.body if isinstance(m, ast.FunctionDef)]
    for fn in tops:
        params = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
        glob = {g for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for g in n.names}
        imported = {(a.asname or a.name).split('.')[0] for n in ast.walk(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        inner = {n.name for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.ClassDef))} - {fn.name}
        exc = {n.name for n in ast.walk(fn) if isinstance(n, ast.ExceptHandler) and n.name}
        loc = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        loc -= params | glob | imported | inner | exc
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('locals', 'vars', 'eval') for n in ast.walk(fn)):
            continue
        ren = {x: x + '_v' for x in loc if not x.startswith('__')}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in ren:
                n.id = ren[n.id]

        class Flip(ast.NodeTransformer):
            def visit_If(self, n):
                self.generic_visit(n)
                if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
                    t = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else \
                        ast.UnaryOp(ast.Not(), n.test)
                    return ast.If(t, n.orelse, n.body)
                return n

            def visit_IfExp(self, n):
                self.generic_visit(n)
                return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)

            def visit_For(self, n):
                self.generic_visit(n)
                it = n.iter
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) == 1 and \
                        isinstance(n.target, ast.Name) and not n.orelse and not has(n, ast.Continue) and not has(n, ast.Lambda):
                    k = fresh(fn, 'count')
                    return [ast.Assign([ast.Name(k, ast.Store())], ast.Constant(0)),
                            ast.While(ast.Compare(ast.Name(k, ast.Load()), [ast.Lt()], it.args),
                                      [ast.Assign([n.target], ast.Name(k, ast.Load()))] + n.body +
                                      [ast.AugAssign(ast.Name(k, ast.Store()), ast.Add(), ast.Constant(1))], [])]
                return n
        # one counter per loop: names have to differ between nested loops
        Flip().visit(fn)
        seen = 0
        for w in ast.walk(fn):
            if isinstance(w, ast.While) and isinstance(w.test, ast.Compare) and isinstance(w.test.left, ast.Name) and \
                    w.test.left.id.startswith('count_'):
                w._k = seen
                seen += 1
        rename_counters(fn)
    return tree


def rename_counters(fn):
    """give every generated counter its own name"""
    k = [0]

    def block(body):
        for i, s in enumerate(body):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    block(b)
            for h in getattr(s, 'handlers', []):
                block(h.body)
            if isinstance(s, ast.While) and hasattr(s, '_k'):
                new = 'index_%d' % s._k
                body[i - 1].targets[0].id = new
                s.test.left.id = new
                s.body[0].value.id = new
                s.body[-1].target.id = new
    block(fn.body)


# ---------------------------------------------------------------- numpy
class Numpy(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute):
            np_ = isinstance(f.value, ast.Name) and f.value.id == 'np'
            N = lambda name, args, kw=(): ast.Call(ast.Attribute(ast.Name('np', ast.Load()), name, ast.Load()), list(args), list(kw))
            if f.attr == 'dot' and not np_ and len(n.args) == 1:
                return N('dot', [f.value, n.args[0]])
            if np_ and f.attr == 'dot' and len(n.args) == 2:
                return ast.Call(ast.Attribute(n.args[0], 'dot', ast.Load()), [n.args[1]], [])
            if np_ and f.attr == 'zeros' and len(n.args) == 1 and not n.keywords:
                n.keywords = [ast.keyword('dtype', ast.Name('float', ast.Load()))]
            if np_ and f.attr in ('hstack', 'vstack') and f.attr == 'vstack' and n.args and isinstance(n.args[0], (ast.Tuple,)):
                n.args[0] = ast.List(n.args[0].elts, ast.Load())
            if f.attr == 'flatten' and not n.args and not np_:
                return ast.Call(ast.Attribute(ast.Call(ast.Attribute(f.value, 'ravel', ast.Load()), [], []), 'copy', ast.Load()), [], [])
            if np_ and f.attr == 'sum' and len(n.args) == 1 and isinstance(n.args[0], ast.BinOp):
                return ast.Call(ast.Attribute(n.args[0], 'sum', ast.Load()), [], n.keywords)
            if np_ and f.attr == 'square' and len(n.args) == 1:
                return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(2))
            if np_ and f.attr == 'mean' and len(n.args) == 1 and not n.keywords:
                return ast.BinOp(N('sum', n.args), ast.Div(), N('size', copy.deepcopy(n.args)))
            if np_ and f.attr == 'sqrt' and len(n.args) == 1:
                return N('power', [n.args[0], ast.Constant(0.5)])
            if np_ and f.attr == 'abs':
                f.attr = 'absolute'
            if np_ and f.attr == 'maximum' and len(n.args) == 2:
                n.args.reverse()
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == 'T' and isinstance(n.ctx, ast.Load):
            return ast.Call(ast.Attribute(n.value, 'transpose', ast.Load()), [], [])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute)):
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        if isinstance(n.op, ast.Mult) and not has(n, ast.List, ast.Tuple, ast.JoinedStr) and not any(
                isinstance(c, ast.Constant) and isinstance(c.value, str) for c in ast.walk(n)):
            if isinstance(n.left, (ast.Name, ast.Attribute, ast.Constant, ast.BinOp)) and isinstance(n.right, (ast.Name, ast.Attribute, ast.BinOp, ast.Subscript)):
                return ast.BinOp(n.right, ast.Mult(), n.left)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in sw:
            return ast.Compare(n.comparators[0], [sw[type(n.ops[0])]()], [n.left])
        return n


def numpy(tree):
    if not any(isinstance(n, ast.Import) and any(a.name == 'numpy' and a.asname == 'np' for a in n.names) for n in tree.body):
        return tree
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            Numpy().visit(n)
    return tree


# ---------------------------------------------------------------- inline
def pure(e):
    return not any(isinstance(n, (ast.Yield, ast.Await, ast.NamedExpr)) or isinstance(n, ast.Call) and not (
        isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'np') for n in ast.walk(e))


def loads(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def inline(tree):
    for fn in list(functions(tree)):
        uses = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name):
                uses.setdefault(n.id, []).append(n)

        def block(body):
            i = 0
            while i < len(body):
                s = body[i]
                for f in ('body', 'orelse', 'finalbody'):
                    b = getattr(s, f, None)
                    if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        block(b)
                nxt = body[i + 1] if i + 1 < len(body) else None
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and nxt is not None and \
                        len(uses.get(s.targets[0].id, [])) == 2 and isinstance(nxt, (ast.Return, ast.Assign)) and nxt.value is not None:
                    name = s.targets[0].id
                    # the use must be evaluated first in the next statement and not inside another scope
                    e = nxt.value
                    first = None
                    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == name:
                        first = (e.func, 'value')
                    elif isinstance(e, ast.Call) and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == name and isinstance(e.func, ast.Name):
                        first = (e.args, 0)
                    elif isinstance(e, ast.BinOp) and isinstance(e.left, ast.Name) and e.left.id == name:
                        first = (e, 'left')
                    elif isinstance(e, ast.Name) and e.id == name:
                        first = (nxt, 'value')
                    if first:
                        if isinstance(first[1], int):
                            first[0][first[1]] = s.value
                        else:
                            setattr(first[0], first[1], s.value)
                        del body[i]
                        continue
                if nxt is not None and isinstance(s, ast.Assign) and isinstance(nxt, ast.Assign) and all(
                        len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and pure(x.value) for x in (s, nxt)) and \
                        s.targets[0].id not in loads(nxt.value) | {nxt.targets[0].id} and nxt.targets[0].id not in loads(s.value):
                    body[i], body[i + 1] = nxt, s
                    i += 2
                    continue
                i += 1
        block(fn.body)
    return tree


def main():
    root, mode = sys.argv[1:3]
    for d, _, fs in os.walk(os.path.join(root, 'menpofit')):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith('.py') and '/test' not in p and f not in ('_version.py',):
                src = open(p).read()
                new = ast.unparse(ast.fix_missing_locations(globals()[mode](ast.parse(src))))
                compile(new, p, 'exec')
                open(p, 'w').write(new + '\n')


if __name__ == '__main__':
    main()
