"""Makes small changes to a source file, one at a time: list of (line, description, new text)."""
import ast
import copy
import warnings

warnings.simplefilter("ignore")

CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv], ast.FloorDiv: [ast.Mult, ast.Div], ast.Div: [ast.FloorDiv], ast.Mod: [ast.FloorDiv], ast.LShift: [ast.RShift],
       ast.RShift: [ast.LShift], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.BitXor: [ast.BitOr], ast.Pow: [ast.Mult]}


def sites(tree):
    """paths to nodes, skipping docstrings, annotations and imports"""
    out = []

    def walk(node, path):
        out.append((path, node))
        for name, val in ast.iter_fields(node):
            if name in ('annotation', 'returns', 'type_comment'):
                continue
            if isinstance(val, ast.AST):
                walk(val, path + [(name, None)])
            elif isinstance(val, list):
                for i, v in enumerate(val):
                    if isinstance(v, ast.AST):
                        if isinstance(v, ast.Expr) and isinstance(v.value, ast.Constant) and isinstance(v.value.value, str):
                            continue
                        if isinstance(v, (ast.Import, ast.ImportFrom)):
                            continue
                        walk(v, path + [(name, i)])
    walk(tree, [])
    return out


def at(tree, path):
    n = tree
    for name, i in path:
        n = getattr(n, name)
        if i is not None:
            n = n[i]
    return n


def put(tree, path, new):
    p = at(tree, path[:-1])
    name, i = path[-1]
    if i is None:
        setattr(p, name, new)
    else:
        getattr(p, name)[i] = new


def variants(n, parent):
    """(description, replacement) pairs"""
    if isinstance(n, ast.Compare):
        for i, o in enumerate(n.ops):
            for w in CMP.get(type(o), []):
                m = copy.deepcopy(n)
                m.ops[i] = w()
                yield '%s -> %s' % (type(o).__name__, w.__name__), m
    elif isinstance(n, ast.BinOp):
        for w in BIN.get(type(n.op), []):
            m = copy.deepcopy(n)
            m.op = w()
            yield '%s -> %s' % (type(n.op).__name__, w.__name__), m
        yield 'left operand only', copy.deepcopy(n.left)
        yield 'right operand only', copy.deepcopy(n.right)
    elif isinstance(n, ast.AugAssign):
        for w in BIN.get(type(n.op), []):
            m = copy.deepcopy(n)
            m.op = w()
            yield 'aug %s -> %s' % (type(n.op).__name__, w.__name__), m
    elif isinstance(n, ast.BoolOp):
        m = copy.deepcopy(n)
        m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        yield 'and/or', m
        for i in range(len(n.values)):
            vs = copy.deepcopy(n.values[:i] + n.values[i + 1:])
            yield 'drop operand %d' % i, vs[0] if len(vs) == 1 else ast.BoolOp(copy.deepcopy(n.op), vs)
    elif isinstance(n, ast.UnaryOp):
        yield 'drop %s' % type(n.op).__name__, copy.deepcopy(n.operand)
    elif isinstance(n, ast.Constant):
        v = n.value
        if v is True or v is False:
            yield 'bool', ast.Constant(not v)
        elif isinstance(v, int):
            yield '+1', ast.Constant(v + 1)
            if v > 0:
                yield '-1', ast.Constant(v - 1)
        elif isinstance(v, str) and v and not isinstance(parent, ast.JoinedStr):
            yield 'empty string', ast.Constant('')
            yield 'other string', ast.Constant(v[:-1] + chr(ord(v[-1]) ^ 1) if v else 'x')
        elif isinstance(v, bytes) and v:
            yield 'other bytes', ast.Constant(v[:-1] + bytes([v[-1] ^ 1]))
            yield 'empty bytes', ast.Constant(b'')
        elif v is None:
            pass
    elif isinstance(n, ast.Slice):
        for f in ('lower', 'upper', 'step'):
            if getattr(n, f) is not None:
                m = copy.deepcopy(n)
                setattr(m, f, None)
                yield 'no ' + f, m
    elif isinstance(n, ast.IfExp):
        yield 'then only', copy.deepcopy(n.body)
        yield 'else only', copy.deepcopy(n.orelse)
    elif isinstance(n, (ast.If, ast.While)):
        m = copy.deepcopy(n)
        m.test = ast.UnaryOp(ast.Not(), m.test)
        yield 'negate condition', m
        if isinstance(n, ast.If):
            m = copy.deepcopy(n)
            m.test = ast.Constant(False)
            yield 'never', m
            m = copy.deepcopy(n)
            m.test = ast.Constant(True)
            yield 'always', m
    elif isinstance(n, ast.Return):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            yield 'return None', ast.Return(ast.Constant(None))
    elif isinstance(n, ast.Call):
        if n.args and not n.keywords and len(n.args) == 1 and not isinstance(n.args[0], ast.Starred):
            yield 'argument itself', copy.deepcopy(n.args[0])
        if len(n.args) == 2:
            m = copy.deepcopy(n)
            m.args = [m.args[1], m.args[0]]
            yield 'swap arguments', m
        if isinstance(n.func, ast.Attribute) and not n.args:
            yield 'receiver itself', copy.deepcopy(n.func.value)
        for i, k in enumerate(n.keywords):
            m = copy.deepcopy(n)
            del m.keywords[i]
            yield 'drop keyword %s' % k.arg, m
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Delete, ast.Continue, ast.Break)) or isinstance(n, ast.Return) and False:
        yield 'delete statement', ast.Pass()


def mutants(src):
    tree = ast.parse(src)
    base = ast.unparse(tree)
    seen, out = {base}, []
    for path, n in sites(tree):
        if not path:
            continue
        parent = at(tree, path[:-1])
        for what, new in variants(n, parent):
            t = copy.deepcopy(tree)
            put(t, path, new)
            ast.fix_missing_locations(t)
            try:
                text = ast.unparse(t)
                compile(text, 'x', 'exec')
            except Exception:
                continue
            if text not in seen:
                seen.add(text)
                out.append((getattr(n, 'lineno', getattr(parent, 'lineno', 0)), what, text))
    return base, out
