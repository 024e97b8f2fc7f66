"""Mechanical extraction: from a live function object of /repo to the AST of
the source text it was compiled from.  Nothing is rewritten or dropped except
docstrings, comments and type annotations, none of which has an effect."""
import ast, os, types

REPO = os.environ.get('PYVC_REPO', '/repo')
_trees = {}
_index = {}


class NoSource(Exception):
    pass


def tree(path):
    if path not in _trees:
        with open(path, 'rb') as f:
            _trees[path] = ast.parse(f.read(), path)
    return _trees[path]


def index(path):
    if path not in _index:
        d = {}
        for n in ast.walk(tree(path)):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                first = min([n.lineno] + [x.lineno for x in n.decorator_list])
                d.setdefault((n.name, first), []).append(n)
            elif isinstance(n, ast.Lambda):
                d.setdefault(('<lambda>', n.lineno), []).append(n)
        _index[path] = d
    return _index[path]


def in_repo(fn):
    code = getattr(fn, '__code__', None)
    return code is not None and os.path.realpath(code.co_filename).startswith(os.path.realpath(REPO) + os.sep)


def _compiled_from(code, node):
    """Several functions start on one line: the one with this code's positions."""
    m = ast.Expression(body=node) if isinstance(node, ast.Lambda) else ast.Module(body=[node], type_ignores=[])
    try:
        k = compile(m, code.co_filename, 'eval' if isinstance(node, ast.Lambda) else 'exec')
    except Exception:
        return False
    k = [x for x in k.co_consts if isinstance(x, types.CodeType) and x.co_name == code.co_name]
    return any(list(x.co_positions()) == list(code.co_positions()) for x in k)


def node_of(fn):
    """FunctionDef/Lambda node of a Python function object defined in /repo."""
    if isinstance(fn, types.MethodType):
        fn = fn.__func__
    if not isinstance(fn, types.FunctionType):
        raise NoSource('not a Python function: %r' % (fn,))
    code = fn.__code__
    c = index(code.co_filename).get((code.co_name, code.co_firstlineno), [])
    if len(c) > 1:
        c = [n for n in c if _compiled_from(code, n)]
    if len(c) != 1:
        raise NoSource('cannot locate the source of %s' % fn.__qualname__)
    return c[0]


def body_of(node):
    """Statements of a function without its docstring."""
    if isinstance(node, ast.Lambda):
        return [ast.Return(value=node.body, lineno=node.lineno, col_offset=0)]
    b = node.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        b = b[1:]
    return b


def where(fn):
    if isinstance(fn, types.MethodType):
        fn = fn.__func__
    c = fn.__code__
    return '%s:%d' % (os.path.relpath(c.co_filename, REPO), c.co_firstlineno)
