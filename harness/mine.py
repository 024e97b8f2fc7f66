"""Constants of the code under test, as extra inputs for the concrete side: a
branch on an unusual value is reached by the value it is compared with."""
import ast, os, re, time
import model

_cache = {}
DEADLINE = None    # end of a directed search
DEEP = False        # directed search after an obligation that was not discharged


def late():
    return DEADLINE is not None and time.time() > DEADLINE


def lucky(rng, p):
    return rng.random() < (3 * p if DEEP else p)


def legal(s):
    return '\r' not in s and not re.search('[^\t\n\u0020-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]', s)


def consts(path):
    """(strings, ints, floats) in the function bodies and module constants of a file."""
    if path in _cache:
        return _cache[path]
    ss, ii, ff = set(), set(), set()
    try:
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read())
    except Exception:
        tree = ast.Module([], [])
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(id(n.value))
    tables = {'_attrs', '_attr_types', '_defaults', '_enums', '_refs', '_many_refs'}
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in tables for t in n.targets):
            skip |= {id(x) for x in ast.walk(n)}
    for n in ast.walk(tree):
        if not isinstance(n, ast.Constant) or id(n) in doc or id(n) in skip:
            continue
        v = n.value
        if isinstance(v, str) and len(v) <= 60 and legal(v):
            ss.add(v)
        elif isinstance(v, bytes) and len(v) <= 60:
            ss.add(v.decode('latin-1')) if legal(v.decode('latin-1')) else None
        elif isinstance(v, bool):
            pass
        elif isinstance(v, int):
            ii.add(v)
        elif isinstance(v, float):
            ff.add(v)
    _cache[path] = ss, ii, ff
    return _cache[path]


def repo():
    return os.environ.get('PYVC_REPO', '/repo')


class Mined:
    def __init__(s, paths):
        s.strs, s.ints, s.floats = set(), set(), set()
        for p in paths:
            a, b, c = consts(p)
            s.strs |= a
            s.ints |= b
            s.floats |= c
        big = sorted(i for i in s.ints if 1 < i <= 2000)
        s.sizes = sorted({j for i in big for j in (i, i + 1, i + 2)} | {j for i in big if i <= 40 for j in (2 * i + 1,)})
        t = set()
        for x in sorted(s.strs):
            t |= {x, x + 'x', 'x' + x, 'x' + x + 'y'}
        t |= {'n' * k for i in big for k in (i - 1, i, i + 1)}
        t |= {str(i) for i in s.ints}
        s.texts = sorted(x for x in t if legal(x))
        s.attr_texts = [x for x in s.texts if '\n' not in x and '\t' not in x]
        s.nums = sorted({i + d for i in s.ints for d in (-1, 0, 1)} | {-i for i in s.ints})
        s.fnums = sorted({f for f in s.floats if f == f} | {-f for f in s.floats if f == f} | {float(i) for i in s.nums if abs(i) < 1 << 60} | {i + .5 for i in s.nums if abs(i) < 1 << 40})


_m = {}


def package():
    """Constants of the reader, the writers and the pretty printer."""
    if 'p' not in _m:
        d = os.path.join(repo(), 'PyCIM')
        fs = []
        for r, ds, ns in os.walk(d):
            if 'Test' in r or 'test' in r.lower().split('/')[-1]:
                continue
            fs += [os.path.join(r, n) for n in sorted(ns) if n.endswith('.py') and 'test' not in n.lower()]
        _m['p'] = Mined(fs)
    return _m['p']


def of_class(key):
    """Constants of a class module and the modules of its bases and of Element."""
    if key not in _m:
        import sys
        fs = []
        for c in model.cls(key).__mro__:
            f = getattr(sys.modules.get(c.__module__), '__file__', None)
            if f and c is not object:
                fs.append(f)
        _m[key] = Mined(fs)
    return _m[key]
