"""PyVC core: a symbolic interpreter for the Python subset the repository's
functions are written in.  It executes the AST of the real source text; every
construct it does not know raises Unsupported (never a silent approximation).

Symbolic values are instances of Sym; their behaviour is defined by the world
(domain) they belong to.  Everything else is a native Python value on which
operations are performed natively."""
import ast, builtins, operator, types
from . import src, budget


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """The current path is finished (cut point) or infeasible."""


class PyRaise(Exception):
    """The interpreted program raised an exception."""

    def __init__(self, exc, note=''):
        self.exc, self.note = exc, note

    def cls(self):
        return self.exc if isinstance(self.exc, type) else type(self.exc)

    def __str__(self):
        return '%s: %s %s' % (self.cls().__name__, '' if isinstance(self.exc, type) else self.exc, self.note)


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Sym:
    """Base of symbolic values; unknown operations are unsupported."""

    def un(self, what):
        raise Unsupported('%s on %s' % (what, type(self).__name__))

    def s_getattr(self, ip, name): self.un("attribute %s" % (name,))
    def s_setattr(self, ip, name, v): self.un("assignment to attribute %s" % (name,))
    def s_call(self, ip, args, kw): self.un('call')
    def s_truth(self, ip): self.un('truth value')
    never_none = False

    def s_cmp(self, ip, op, other, swapped):
        if self.never_none and other is None and op in ('is', 'is not', '==', '!='):
            return op in ('is not', '!=')
        self.un('comparison ' + op)

    def s_binop(self, ip, op, other, swapped): self.un('operator ' + op)
    def s_unary(self, ip, op): self.un('operator ' + op)
    def s_getitem(self, ip, k): self.un('subscript')
    def s_setitem(self, ip, k, v): self.un('subscript assignment')
    def s_delitem(self, ip, k): self.un('subscript deletion')
    def s_iter(self, ip): self.un('iteration')
    def s_contains(self, ip, x): self.un('membership test')
    def s_len(self, ip): self.un('len()')
    def s_str(self, ip): self.un('str()')
    def s_format(self, ip, spec): self.un('formatting')
    def s_type(self, ip): self.un('type()')
    def s_isinstance(self, ip, k): self.un('isinstance()')
    def s_loop(self, ip, node, fr, body): return NotImplemented


class Bound:
    """A bound method of the interpreted program (self, real function)."""

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Closure:
    def __init__(self, node, frame, fn, defaults, kwdefaults):
        self.node, self.frame, self.fn, self.defaults, self.kwdefaults = node, frame, fn, defaults, kwdefaults
        self.__name__ = getattr(node, 'name', '<lambda>')


class Frame:
    def __init__(self, fn, parent=None):
        self.fn = fn                     # real function object (globals, closure) or None
        self.vars = {}
        self.parent = parent             # enclosing interpreted frame
        self.globals = fn.__globals__ if fn is not None else (parent.globals if parent else {})
        self.qual = fn.__qualname__ if fn is not None else '?'
        self.nonlocals = set()

    def lookup(self, name):
        f = self
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            if f.fn is not None and f.fn.__closure__ and name in f.fn.__code__.co_freevars:
                return f.fn.__closure__[f.fn.__code__.co_freevars.index(name)].cell_contents
            f = f.parent
        if name in self.globals:
            return self.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError(name))


class Explorer:
    """Decision-replay exploration of all feasible paths."""

    def __init__(self, feasible, limit=4000):
        self.feasible = feasible         # list of conditions -> bool
        self.limit = limit
        self.paths = 0

    def run(self, thunk):
        stack = [[]]
        while stack:
            self.prefix = stack.pop()
            Explorer.now = self
            self.taken = []
            self.meta = []                   # of each decision taken: number of ways, soft
            self.pc = []
            self.stack = stack
            self.paths += 1
            if self.paths > self.limit:
                raise Unsupported('more than %d paths' % self.limit)
            if budget.over():
                raise Unsupported('time for proving is over')
            try:
                yield thunk(self)
            except PathEnd:
                pass

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.pc.append(c)

    def choose(self, n, label='', soft=False):
        """Unconstrained n-way choice; a soft one is due to abstraction: an input may not allow every way."""
        i = len(self.taken)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            k = 0
            for j in range(n - 1, 0, -1):
                self.stack.append(self.taken + [j])
        self.taken.append(k)
        self.meta.append((n, soft))
        return k

    def branch(self, cond, neg):
        if isinstance(cond, bool):
            return cond
        self.meta.append((2, False))
        i = len(self.taken)
        if i < len(self.prefix):
            k = self.prefix[i]
            self.taken.append(k)
            self.pc.append(cond if k else neg)
            return bool(k)
        t = self.feasible(self.pc + [cond])
        f = self.feasible(self.pc + [neg])
        if t and f:
            self.stack.append(self.taken + [0])
            self.taken.append(1)
            self.pc.append(cond)
            return True
        if not t and not f:
            raise PathEnd()
        self.taken.append(1 if t else 0)
        self.pc.append(cond if t else neg)
        return t


def soft_path(ex=None):
    """Did the current path take a decision that is due to abstraction?"""
    return any(s for n, s in (ex or Explorer.now).meta)


def certain(paths, i=0):
    """Do these failing paths (decisions, meta) fail whatever way the soft decisions go?"""
    while True:
        if any(len(t) <= i for t, m in paths):
            return True
        n, soft = paths[0][1][i]
        by = {}
        for x in paths:
            by.setdefault(x[0][i], []).append(x)
        if len(by) == 1 and not soft:
            paths, i = next(iter(by.values())), i + 1
            continue
        if soft:
            return len(by) == n and all(certain(g, i + 1) for g in by.values())
        return any(certain(g, i + 1) for g in by.values())


BIN = {ast.Add: ('+', operator.add), ast.Sub: ('-', operator.sub), ast.Mult: ('*', operator.mul), ast.Mod: ('%', operator.mod),
       ast.FloorDiv: ('//', operator.floordiv), ast.Div: ('/', operator.truediv), ast.BitOr: ('|', operator.or_),
       ast.BitAnd: ('&', operator.and_), ast.Pow: ('**', operator.pow), ast.BitXor: ('^', operator.xor)}
CMP = {ast.Eq: ('==', operator.eq), ast.NotEq: ('!=', operator.ne), ast.Lt: ('<', operator.lt), ast.LtE: ('<=', operator.le),
       ast.Gt: ('>', operator.gt), ast.GtE: ('>=', operator.ge), ast.Is: ('is', operator.is_), ast.IsNot: ('is not', operator.is_not),
       ast.In: ('in', None), ast.NotIn: ('not in', None)}
SWAP = {'==': '==', '!=': '!=', '<': '>', '<=': '>=', '>': '<', '>=': '<=', 'is': 'is', 'is not': 'is not'}

PURE = {str, int, float, bool, list, tuple, dict, set, frozenset, len, range, enumerate, zip, sorted, reversed, min, max, sum, any, all,
        abs, repr, isinstance, issubclass, hasattr, getattr, type, callable, id, ord, chr, iter, next, map, filter, object, __import__, property, super, setattr, print, vars, divmod, round}


class Interp:
    max_depth = 40

    def __init__(self, ex, world):
        self.ex, self.w = ex, world
        self.depth = 0
        self.frames = []                 # frames of the active calls
        self.pos = []                    # active statements, loop positions and call boundaries
        self.cur_call = None

    # ------------------------------------------------------------ helpers
    def unsupported(self, what, node=None):
        raise Unsupported(what + (' at line %d' % node.lineno if node is not None and hasattr(node, 'lineno') else ''))

    def truth(self, v):
        if isinstance(v, Sym):
            return v.s_truth(self)
        return bool(v)

    def has_sym(self, vs):
        return any(isinstance(v, (Sym, Bound, Closure)) or (isinstance(v, (list, tuple, set)) and self.has_sym(v)) or
                   (isinstance(v, dict) and (self.has_sym(v.values()) or self.has_sym(v.keys()))) for v in vs)

    # ------------------------------------------------------------ functions
    def bind(self, fn, node, args, kw, defaults, kwdefaults):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if args and getattr(args[-1], 'is_star', False):
            if a.vararg is None or len(args) - 1 != len(names) or kw:
                raise Unsupported('* of a symbolic sequence')
            out.update(zip(names, args))
            out[a.vararg.arg] = args[-1].seq
            for n, d in (kwdefaults or {}).items():
                out.setdefault(n, d)
            return out
        if any(getattr(x, 'is_star', False) for x in args):
            raise Unsupported('* of a symbolic sequence')
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise(TypeError('too many positional arguments'))
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(names):])
        kw = dict(kw)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in out:
                    raise PyRaise(TypeError('multiple values for argument %r' % n))
                out[n] = kw.pop(n)
        if a.kwarg is not None:
            out[a.kwarg.arg] = kw
        elif kw:
            raise PyRaise(TypeError('unexpected keyword argument %r' % sorted(kw)[0]))
        for n, d in zip(names[len(names) - len(defaults):], defaults):
            out.setdefault(n, d)
        for n, d in (kwdefaults or {}).items():
            out.setdefault(n, d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                raise PyRaise(TypeError('missing argument %r' % n))
        return out

    def call_real(self, fn, args, kw):
        """Inline a Python function of the repository."""
        if isinstance(fn, types.MethodType):
            args, fn = [fn.__self__] + list(args), fn.__func__
        try:
            node = src.node_of(fn)
        except src.NoSource as e:
            self.unsupported(str(e))
        if self.depth >= self.max_depth:
            self.unsupported('call depth')
        fr = Frame(fn)
        fr.vars.update(self.bind(fn, node, args, kw, fn.__defaults__ or (), fn.__kwdefaults__))
        return self.run_body(src.body_of(node), fr, node)

    def run_body(self, body, fr, node):
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)):
            self.unsupported('generator function', node)
        self.depth += 1
        fr.node = node
        self.frames.append(fr)
        self.pos.append(('call', self.cur_call))
        try:
            self.block(body, fr)
        except _Return as r:
            return r.v
        finally:
            self.depth -= 1
            self.frames.pop()
            self.pos.pop()
        return None

    def call(self, f, args, kw, node=None):
        self.cur_call = node
        r = self.w.call(self, f, args, kw)
        if r is not NotImplemented:
            return r
        if isinstance(f, Sym):
            return f.s_call(self, args, kw)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw, node)
        if isinstance(f, Closure):
            fr = Frame(None, f.frame)
            fr.globals, fr.qual = f.frame.globals, f.frame.qual + '.' + f.__name__
            fr.vars.update(self.bind(None, f.node, args, kw, f.defaults, f.kwdefaults))
            return self.run_body(src.body_of(f.node), fr, f.node)
        if isinstance(f, (types.FunctionType, types.MethodType)):
            if src.in_repo(f.__func__ if isinstance(f, types.MethodType) else f):
                return self.call_real(f, args, kw)
            self.unsupported('call of %s.%s' % (f.__module__, f.__qualname__), node)
        if isinstance(f, type) and issubclass(f, BaseException):
            return f(*[a if not isinstance(a, Sym) else '<symbolic>' for a in args])
        return self.builtin(f, args, kw, node)

    def builtin(self, f, args, kw, node):
        if f in (list, tuple, set, sorted, enumerate, zip, reversed, any, all, map, filter, sum, iter) and args and not kw:
            if any(isinstance(a, Sym) for a in args):
                if f is list:
                    return self.w.new_list(self, args[0])
                if f is tuple:
                    return self.w.new_tuple(self, args[0])
                if f is iter:
                    return args[0]
                self.unsupported('%s() of a symbolic value' % f.__name__, node)
            if f in (map, filter):
                l = list(args[1])
                return [self.call(args[0], [x], {}) for x in l] if f is map else [x for x in l if self.truth(x if args[0] is None else self.call(args[0], [x], {}))]
            if f in (any, all):
                for x in args[0]:
                    if self.truth(x) != (f is all):
                        return f is any
                return f is all
        if f is len and isinstance(args[0], Sym):
            return args[0].s_len(self)
        if f is str and args and isinstance(args[0], Sym):
            return args[0].s_str(self)
        if f is bool and args and isinstance(args[0], Sym):
            return self.truth(args[0])
        if f is type and len(args) == 1 and isinstance(args[0], Sym):
            return args[0].s_type(self)
        if f is isinstance and isinstance(args[0], Sym):
            return args[0].s_isinstance(self, args[1])
        if f is isinstance and isinstance(args[0], (Bound, Closure)):
            return False
        if f is getattr and (isinstance(args[0], Sym) or isinstance(args[1], Sym)):
            if len(args) == 3:
                try:
                    return self.getattr(args[0], args[1])
                except PyRaise as e:
                    if e.cls() is AttributeError:
                        return args[2]
                    raise
            return self.getattr(args[0], args[1])
        if f is setattr and (isinstance(args[0], Sym) or isinstance(args[1], Sym)):
            return self.setattr(args[0], args[1], args[2])
        if f is hasattr and (isinstance(args[0], Sym) or isinstance(args[1], Sym)):
            try:
                self.getattr(args[0], args[1])
                return True
            except PyRaise as e:
                if issubclass(e.cls(), AttributeError):
                    return False
                raise
        if f is callable and isinstance(args[0], (Bound, Closure)):
            return True
        if f is super:
            return self.w.super(self, args)
        if f is setattr:
            return self.setattr(*args)
        m = getattr(f, '__self__', None)
        if isinstance(f, types.BuiltinMethodType) and m is not None and not isinstance(m, types.ModuleType):
            # method of a native value
            if type(m) in (str, bytes, int, float, tuple, frozenset, bool):
                if self.has_sym(args) or self.has_sym(kw.values()):
                    r = self.w.native_method(self, m, f.__name__, args, kw)
                    if r is not NotImplemented:
                        return r
                    self.unsupported('%s.%s with symbolic arguments' % (type(m).__name__, f.__name__), node)
                return self.native(f, args, kw)
            if type(m) in (list, dict, set):
                if not self.w.may_mutate(self, m) and f.__name__ in MUTATORS:
                    self.w.global_write(self, m, f.__name__)
                if type(m) is list and f.__name__ in ('append', 'extend', 'insert', 'pop', 'copy', 'clear', 'reverse') and not any(isinstance(a, Sym) for a in args[:1] if f.__name__ != 'append' and f.__name__ != 'insert'):
                    return self.native(f, args, kw)
                if type(m) is dict and f.__name__ in ('get', 'items', 'keys', 'values', 'copy', 'update', 'setdefault', 'pop', 'clear'):
                    if args and isinstance(args[0], Sym):
                        r = self.w.native_method(self, m, f.__name__, args, kw)
                        if r is not NotImplemented:
                            return r
                        self.unsupported('dict.%s with symbolic key' % f.__name__, node)
                    if f.__name__ in ('items', 'keys', 'values'):
                        return list(self.native(f, args, kw))
                    return self.native(f, args, kw)
                if not self.has_sym(args) and not self.has_sym([m]):
                    return self.native(f, args, kw)
                self.unsupported('%s.%s with symbolic values' % (type(m).__name__, f.__name__), node)
        if f in PURE if isinstance(f, (type, types.BuiltinFunctionType)) else False:
            if f is not list and f is not tuple and f is not dict and self.has_sym(args):
                self.unsupported('%s() with symbolic arguments' % f.__name__, node)
            if f is next or f is print or f is vars:
                self.unsupported(f.__name__, node)
            return self.native(f, args, kw)
        self.unsupported('call of %r' % (f,), node)

    def native(self, f, args, kw):
        try:
            return f(*args, **kw)
        except (Unsupported, PyRaise, PathEnd):
            raise
        except Exception as e:
            raise PyRaise(e)

    def getattr(self, o, name):
        if isinstance(o, Sym):
            return o.s_getattr(self, name)
        if isinstance(o, (Bound, Closure)):
            if name == '__name__':
                return o.fn.__name__ if isinstance(o, Bound) else o.__name__
            self.unsupported('attribute of a function')
        r = self.w.native_getattr(self, o, name)
        if r is not NotImplemented:
            return r
        try:
            return getattr(o, name)
        except Exception as e:
            raise PyRaise(e)

    def setattr(self, o, name, v):
        if isinstance(o, Sym):
            return o.s_setattr(self, name, v)
        self.w.native_setattr(self, o, name, v)

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.pos.append(s)
            try:
                self.stmt(s, fr)
            finally:
                self.pos.pop()

    def stmt(self, s, fr):
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return
            self.ev(s.value, fr)
        elif t is ast.Assign:
            v = self.ev(s.value, fr)
            for g in s.targets:
                self.assign(g, v, fr)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, fr), fr)
        elif t is ast.AugAssign:
            self.augassign(s, fr)
        elif t is ast.If:
            self.block(s.body if self.truth(self.ev(s.test, fr)) else s.orelse, fr)
        elif t is ast.Return:
            raise _Return(self.ev(s.value, fr) if s.value is not None else None)
        elif t is ast.For:
            self.for_(s, fr)
        elif t is ast.While:
            self.while_(s, fr)
        elif t is ast.Pass:
            pass
        elif t is ast.Break:
            raise _Break()
        elif t is ast.Continue:
            raise _Continue()
        elif t is ast.Raise:
            if s.exc is None:
                if not getattr(fr, 'handling', None):
                    self.unsupported('bare raise', s)
                raise fr.handling[-1]
            e = self.ev(s.exc, fr)
            if isinstance(e, (BaseException,)) or isinstance(e, type) and issubclass(e, BaseException):
                raise PyRaise(e)
            self.unsupported('raise', s)
        elif t is ast.Assert:
            if not self.truth(self.ev(s.test, fr)):
                if s.msg is not None:
                    try:
                        self.ev(s.msg, fr)
                    except Unsupported:
                        pass
                raise PyRaise(AssertionError())
        elif t is ast.Try:
            self.try_(s, fr)
        elif t is ast.FunctionDef:
            if s.decorator_list:
                self.unsupported('decorated nested function', s)
            fr.vars[s.name] = Closure(s, fr, None, [self.ev(d, fr) for d in s.args.defaults],
                                      {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})
        elif t is ast.Import:
            for a in s.names:
                m = self.native(__import__, [a.name], {})
                if a.asname:
                    for p in a.name.split('.')[1:]:
                        m = getattr(m, p)
                fr.vars[a.asname or a.name.split('.')[0]] = m
        elif t is ast.ImportFrom:
            if s.level:
                self.unsupported('relative import', s)
            m = self.native(__import__, [s.module, {}, {}, [a.name for a in s.names]], {})
            for a in s.names:
                if a.name == '*':
                    self.unsupported('import *', s)
                fr.vars[a.asname or a.name] = self.getattr(m, a.name)
        elif t is ast.Delete:
            for g in s.targets:
                if isinstance(g, ast.Name):
                    fr.vars.pop(g.id, None)
                elif isinstance(g, ast.Subscript):
                    o, k = self.ev(g.value, fr), self.ev(g.slice, fr)
                    if isinstance(o, Sym):
                        o.s_delitem(self, k)
                    elif self.w.may_mutate(self, o) and not isinstance(k, Sym):
                        self.native(operator.delitem, [o, k], {})
                    else:
                        self.unsupported('del', s)
                else:
                    self.unsupported('del', s)
        elif t is ast.With:
            self.with_(s, fr)
        elif t is ast.Nonlocal:
            fr.nonlocals |= set(s.names)
        else:
            self.unsupported(t.__name__, s)

    def with_(self, s, fr):
        self.unsupported('with', s)

    def augassign(self, s, fr):
        op = BIN.get(type(s.op))
        if op is None:
            self.unsupported('augmented assignment', s)
        g = s.target
        if isinstance(g, ast.Name):
            cur = self.ev(ast.Name(id=g.id, ctx=ast.Load(), lineno=s.lineno), fr)
            self.assign(g, self.inplace(op, cur, self.ev(s.value, fr), s), fr)
        elif isinstance(g, ast.Attribute):
            o = self.ev(g.value, fr)
            cur = self.getattr(o, self.mangle(g.attr, fr))
            self.setattr(o, self.mangle(g.attr, fr), self.inplace(op, cur, self.ev(s.value, fr), s))
        elif isinstance(g, ast.Subscript):
            o, k = self.ev(g.value, fr), self.ev(g.slice, fr)
            cur = self.getitem(o, k, s)
            self.setitem(o, k, self.inplace(op, cur, self.ev(s.value, fr), s), s)
        else:
            self.unsupported('augmented assignment', s)

    def inplace(self, op, cur, v, node):
        if isinstance(cur, (list, dict, set)):
            if op[0] == '+' and isinstance(cur, list) and isinstance(v, (list, tuple)) and self.w.may_mutate(self, cur):
                cur.extend(v)
                return cur
            self.unsupported('in-place operator', node)
        if isinstance(cur, Sym) and hasattr(cur, 's_inplace'):
            return cur.s_inplace(self, op[0], v)
        return self.binop(op, cur, v, node)

    def assign(self, g, v, fr):
        if isinstance(g, ast.Name):
            if g.id in fr.nonlocals:
                f = fr.parent
                while f is not None and g.id not in f.vars:
                    f = f.parent
                if f is None:
                    self.unsupported('nonlocal', g)
                f.vars[g.id] = v
            else:
                fr.vars[g.id] = v
        elif isinstance(g, ast.Attribute):
            self.setattr(self.ev(g.value, fr), self.mangle(g.attr, fr), v)
        elif isinstance(g, ast.Subscript):
            self.setitem(self.ev(g.value, fr), self.ev(g.slice, fr), v, g)
        elif isinstance(g, (ast.Tuple, ast.List)):
            if isinstance(v, Sym):
                v = self.w.unpack(self, v, len(g.elts))
            vs = list(v)
            if any(isinstance(e, ast.Starred) for e in g.elts):
                self.unsupported('starred assignment', g)
            if len(vs) != len(g.elts):
                raise PyRaise(ValueError('unpacking'))
            for e, x in zip(g.elts, vs):
                self.assign(e, x, fr)
        else:
            self.unsupported('assignment', g)

    def setitem(self, o, k, v, node):
        if isinstance(o, Sym):
            return o.s_setitem(self, k, v)
        if isinstance(k, Sym):
            r = self.w.native_method(self, o, '__setitem__', [k, v], {})
            if r is not NotImplemented:
                return
            self.unsupported('symbolic key', node)
        if not self.w.may_mutate(self, o):
            self.w.global_write(self, o, '__setitem__')
        self.native(operator.setitem, [o, k, v], {})

    def getitem(self, o, k, node):
        if isinstance(o, Sym):
            return o.s_getitem(self, k)
        if isinstance(k, Sym):
            r = self.w.native_method(self, o, '__getitem__', [k], {})
            if r is not NotImplemented:
                return r
            self.unsupported('symbolic key', node)
        return self.native(operator.getitem, [o, k], {})

    def for_(self, s, fr):
        it = self.ev(s.iter, fr)
        if isinstance(it, Sym):
            r = it.s_loop(self, s, fr, None)
            if r is not NotImplemented:
                return
            it = it.s_iter(self)
        else:
            r = self.w.for_native(self, s, fr, it)
            if r is not NotImplemented:
                return
        if isinstance(it, dict):
            it = list(it)
        broke = False
        for i, x in enumerate(it):
            self.assign(s.target, x, fr)
            self.pos.append(('for', i, it))
            try:
                self.block(s.body, fr)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
            finally:
                self.pos.pop()
        if not broke:
            self.block(s.orelse, fr)

    def while_(self, s, fr):
        r = self.w.while_(self, s, fr)
        if r is not NotImplemented:
            return
        n = 0
        while True:
            if not self.truth(self.ev(s.test, fr)):
                self.block(s.orelse, fr)
                return
            n += 1
            if n > 500:
                self.unsupported('unbounded while loop', s)
            try:
                self.block(s.body, fr)
            except _Break:
                return
            except _Continue:
                continue

    def try_(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    t = (Exception,) if h.type is None else self.ev(h.type, fr)
                    t = t if isinstance(t, tuple) else (t,)
                    if h.type is None or issubclass(e.cls(), t):
                        if h.name:
                            fr.vars[h.name] = e.exc
                        fr.handling = getattr(fr, 'handling', []) + [e]
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.handling = fr.handling[:-1]
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PyRaise, _Return, _Break, _Continue):
            self.block(s.finalbody, fr)
            raise
        self.block(s.finalbody, fr)

    # ------------------------------------------------------------ expressions
    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            q = fr.qual.replace('.<locals>', '').split('.')
            if len(q) > 1:
                return '_%s%s' % (q[-2].lstrip('_'), name)
        return name

    def ev(self, e, fr):
        t = type(e)
        if t is ast.Constant:
            return e.value
        if t is ast.Name:
            if e.id in fr.vars:
                return fr.vars[e.id]
            v = self.w.lookup_name(self, e.id, fr)
            if v is not NotImplemented:
                return v
            return fr.lookup(e.id)
        if t is ast.Attribute:
            return self.getattr(self.ev(e.value, fr), self.mangle(e.attr, fr))
        if t is ast.Call:
            return self.ev_call(e, fr)
        if t is ast.Compare:
            return self.ev_compare(e, fr)
        if t is ast.BoolOp:
            v = None
            for x in e.values:
                v = self.ev(x, fr)
                b = self.truth(v)
                if b != isinstance(e.op, ast.And):
                    return v
            return v
        if t is ast.UnaryOp:
            if isinstance(e.op, ast.Not):
                v = self.ev(e.operand, fr)
                if isinstance(v, Sym) and hasattr(v, 's_not'):
                    return v.s_not(self)
                return not self.truth(v)
            v = self.ev(e.operand, fr)
            if isinstance(v, Sym):
                return v.s_unary(self, type(e.op).__name__)
            return self.native({ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)], [v], {})
        if t is ast.BinOp:
            op = BIN.get(type(e.op))
            if op is None:
                self.unsupported('operator', e)
            return self.binop(op, self.ev(e.left, fr), self.ev(e.right, fr), e)
        if t is ast.IfExp:
            return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)
        if t in (ast.List, ast.Tuple, ast.Set):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.ev(x.value, fr)
                    if isinstance(v, Sym):
                        if len(e.elts) == 1:
                            return self.w.new_list(self, v) if t is ast.List else self.w.new_tuple(self, v)
                        self.unsupported('starred symbolic sequence', e)
                    out.extend(v)
                else:
                    out.append(self.ev(x, fr))
            if t is ast.List:
                return self.w.list_display(self, out)
            return tuple(out) if t is ast.Tuple else set(out)
        if t is ast.Dict:
            d = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    x = self.ev(v, fr)
                    if isinstance(x, Sym):
                        self.unsupported('** of a symbolic map', e)
                    d.update(x)
                    continue
                k = self.ev(k, fr)
                if isinstance(k, Sym):
                    k = self.w.dict_key(self, k)
                d[k] = self.ev(v, fr)
            return self.w.dict_display(self, d, e)
        if t is ast.Subscript:
            o = self.ev(e.value, fr)
            if isinstance(e.slice, ast.Slice):
                k = slice(*[self.ev(x, fr) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)])
                if not isinstance(o, Sym) and self.has_sym([k.start, k.stop, k.step]):
                    r = self.w.native_method(self, o, '__getitem__', [k], {})
                    if r is not NotImplemented:
                        return r
                    self.unsupported('symbolic slice', e)
                if isinstance(o, list) and not isinstance(o, Sym):
                    return self.native(operator.getitem, [o, k], {})
            else:
                k = self.ev(e.slice, fr)
            return self.getitem(o, k, e)
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp):
            return self.comp(e, fr)
        if t is ast.JoinedStr:
            parts = []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    parts.append(v.value)
                else:
                    if v.format_spec is not None or v.conversion not in (-1, 115):
                        x = self.ev(v.value, fr)
                        if isinstance(x, Sym):
                            self.unsupported('format specification', e)
                        spec = self.ev(v.format_spec, fr) if v.format_spec is not None else ''
                        x = {114: repr, 115: str, 97: ascii}.get(v.conversion, lambda y: y)(x)
                        parts.append(format(x, spec))
                    else:
                        parts.append(self.to_str(self.ev(v.value, fr)))
            return self.w.concat(self, parts)
        if t is ast.Lambda:
            return Closure(e, fr, None, [self.ev(d, fr) for d in e.args.defaults], {})
        if t is ast.NamedExpr:
            v = self.ev(e.value, fr)
            self.assign(e.target, v, fr)
            return v
        self.unsupported(t.__name__, e)

    def to_str(self, v):
        if isinstance(v, Sym):
            return v.s_str(self)
        return str(v)

    def binop(self, op, a, b, node):
        if isinstance(a, Sym):
            return a.s_binop(self, op[0], b, False)
        if op[0] == '%' and isinstance(a, str) and self.has_sym([b]):
            return self.w.format(self, a, b if isinstance(b, tuple) else (b,))
        if isinstance(b, Sym):
            return b.s_binop(self, op[0], a, True)
        if self.has_sym([a, b]) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
            self.unsupported('operator on containers of symbolic values', node)
        return self.native(op[1], [a, b], {})

    def ev_call(self, e, fr):
        f = None
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in fr.vars and not e.args:
            return self.w.super(self, None, fr)
        f = self.ev(e.func, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                if isinstance(v, Sym):
                    args.append(self.w.star(self, v))
                else:
                    args.extend(v)
            else:
                args.append(self.ev(x, fr))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, Sym):
                    kw['**'] = v
                else:
                    kw.update(v)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, e)

    def ev_compare(self, e, fr):
        left = self.ev(e.left, fr)
        v = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            v = self.compare(op, left, right, e)
            if i + 1 < len(e.ops):
                if not self.truth(v):
                    return v
            left = right
        return v

    def compare(self, op, a, b, node):
        name, f = CMP[type(op)]
        if name in ('in', 'not in'):
            if isinstance(b, Sym):
                v = b.s_contains(self, a)
            elif isinstance(a, Sym):
                v = self.w.contains_native(self, a, b)
            else:
                if self.has_sym([b]) and not isinstance(b, dict):
                    v = False
                    for x in b:
                        if self.truth(self.compare(ast.Eq(), x, a, node)):
                            v = True
                            break
                else:
                    v = self.native(operator.contains, [b, a], {})
            if name == 'not in':
                if isinstance(v, Sym):
                    return v.s_not(self)
                return not v
            return v
        if (type(a) is object or type(b) is object) and name in ('==', 'is', '!=', 'is not'):
            o = b if type(a) is object else a
            if not isinstance(o, Sym) or not getattr(o, 'unknown', False):
                return (a is b) == (name in ('==', 'is'))       # a marker: an object of its own
        if isinstance(a, Sym):
            return a.s_cmp(self, name, b, False)
        if isinstance(b, Sym):
            return b.s_cmp(self, SWAP[name], a, True)
        if name not in ('is', 'is not') and self.has_sym([a, b]):
            if isinstance(a, (Bound, Closure)) or isinstance(b, (Bound, Closure)):
                self.unsupported('comparison of functions', node)
            r = self.w.compare_containers(self, name, a, b)
            if r is not NotImplemented:
                return r
            self.unsupported('comparison of containers', node)
        return self.native(f, [a, b], {})

    def comp(self, e, fr):
        g = e.generators[0]
        if any(x.is_async for x in e.generators):
            self.unsupported('async', e)
        it = self.ev(g.iter, fr)
        sub = Frame(None, fr)
        sub.globals, sub.qual = fr.globals, fr.qual
        if isinstance(it, Sym):
            if len(e.generators) == 1:
                r = self.w.comp_sym(self, e, it, sub)
                if r is not NotImplemented:
                    return r
            it = it.s_iter(self)
        out = []

        def go(i, it):
            g = e.generators[i]
            for x in list(it):
                self.assign(g.target, x, sub)
                if all(self.truth(self.ev(c, sub)) for c in g.ifs):
                    if i + 1 < len(e.generators):
                        nx = self.ev(e.generators[i + 1].iter, sub)
                        if isinstance(nx, Sym):
                            nx = nx.s_iter(self)
                        go(i + 1, nx)
                    elif isinstance(e, ast.DictComp):
                        out.append((self.ev(e.key, sub), self.ev(e.value, sub)))
                    else:
                        out.append(self.ev(e.elt, sub))
        go(0, it)
        if isinstance(e, ast.ListComp):
            return self.w.list_display(self, out)
        if isinstance(e, ast.SetComp):
            return set(out)
        if isinstance(e, ast.DictComp):
            return dict(out)
        return out


MUTATORS = {'append', 'extend', 'insert', 'pop', 'clear', 'remove', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard', '__setitem__'}


class World:
    """Default hooks."""

    def call(self, ip, f, args, kw): return NotImplemented
    def lookup_name(self, ip, name, fr): return NotImplemented
    def native_getattr(self, ip, o, name): return NotImplemented
    def native_method(self, ip, m, name, args, kw): return NotImplemented
    def for_native(self, ip, s, fr, it): return NotImplemented
    def while_(self, ip, s, fr): return NotImplemented
    def comp_sym(self, ip, e, it, sub): return NotImplemented
    def compare_containers(self, ip, name, a, b): return NotImplemented
    def list_display(self, ip, xs): return xs
    def dict_display(self, ip, d, e): return d
    def dict_key(self, ip, k): raise Unsupported('symbolic dictionary key')

    def native_setattr(self, ip, o, name, v):
        raise Unsupported('assignment to attribute %s of %r' % (name, type(o).__name__))

    def may_mutate(self, ip, o): return False

    def global_write(self, ip, o, what):
        raise Unsupported('mutation of a shared %s (%s)' % (type(o).__name__, what))

    def new_list(self, ip, v): raise Unsupported('list() of a symbolic value')
    def new_tuple(self, ip, v): raise Unsupported('tuple() of a symbolic value')
    def unpack(self, ip, v, n): raise Unsupported('unpacking a symbolic value')
    def star(self, ip, v): raise Unsupported('* of a symbolic value')
    def super(self, ip, args, fr=None): raise Unsupported('super()')
    def format(self, ip, fmt, args): raise Unsupported('% formatting')
    def concat(self, ip, parts): raise Unsupported('f-string')
    def contains_native(self, ip, a, b): raise Unsupported('membership of a symbolic value')
