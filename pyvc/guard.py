"""Guarded execution: effects of all combinations of finitely many input states
in one run.  Conditions on the input become guards; an if on such a condition
runs both arms under their guards and joins the variables."""
import ast, itertools
from .interp import BIN, World, Interp, Sym, Unsupported, PyRaise, _Return, _Break, _Continue


# ------------------------------------------------------------------- guards
def AND(*gs):
    out = []
    for g in gs:
        if g is False:
            return False
        if g is True:
            continue
        if g[0] == 'and':
            out += g[1]
        else:
            out.append(g)
    return True if not out else out[0] if len(out) == 1 else ('and', out)


def OR(*gs):
    out = []
    for g in gs:
        if g is True:
            return True
        if g is False:
            continue
        out.append(g)
    return False if not out else out[0] if len(out) == 1 else ('or', out)


def NOT(g):
    if isinstance(g, bool):
        return not g
    return g[1] if g[0] == 'not' else ('not', g)


def support(g, out):
    if isinstance(g, bool):
        return out
    if g[0] == 'atom':
        out.add(g[1])
    elif g[0] == 'not':
        support(g[1], out)
    else:
        for x in g[1]:
            support(x, out)
    return out


def holds(g, a):
    if isinstance(g, bool):
        return g
    if g[0] == 'atom':
        return a[g[1]] in g[2]
    if g[0] == 'not':
        return not holds(g[1], a)
    return (all if g[0] == 'and' else any)(holds(x, a) for x in g[1])


class Cond(Sym):
    def __init__(s, g): s.g = g

    def s_truth(s, ip):
        return ip.w.fork(ip, s.g)

    def s_not(s, ip): return wrap(NOT(s.g))
    def s_type(s, ip): return bool

    def s_cmp(s, ip, op, o, sw):
        if isinstance(o, bool):
            return wrap(s.g if (o == (op in ('is', '=='))) else NOT(s.g))
        s.un('comparison ' + op)


def wrap(g):
    return g if isinstance(g, bool) else Cond(g)


class Ite(Sym):
    """One value per case; the guards are exhaustive and disjoint under the path."""

    def __init__(s, cases): s.cases = cases

    def __repr__(s): return ' | '.join('%r' % (v,) for g, v in s.cases)

    def per(s, ip, f):
        return join([(g, ip.w.under(ip, g, lambda v=v: f(v))) for g, v in s.live(ip)])

    def live(s, ip):
        return [(g, v) for g, v in s.cases if ip.w.sat(AND(ip.w.now(), g))]

    def guard(s, ip, f):
        """Disjunction of guard & f(value), f gives a bool or a Cond."""
        out = []
        for g, v in s.live(ip):
            r = f(v)
            out.append(AND(g, r.g if isinstance(r, Cond) else bool(r)))
        return OR(*out)

    def s_cmp(s, ip, op, o, sw):
        return wrap(s.guard(ip, lambda v: ip.compare({'is': ast.Is, 'is not': ast.IsNot, '==': ast.Eq, '!=': ast.NotEq}.get(op, ast.Lt)() if op in ('is', 'is not', '==', '!=')
                                                    else s.un('comparison'), v, o, None)))

    def truth_guard(s, ip):
        return s.guard(ip, lambda v: wrap(truth_guard(ip, v)))

    def s_truth(s, ip): return ip.w.fork(ip, s.truth_guard(ip))

    def s_getattr(s, ip, name):
        return s.per(ip, lambda v: ip.getattr(v, name))

    def s_call(s, ip, args, kw):
        return s.per(ip, lambda v: ip.call(v, args, kw))

    def s_getitem(s, ip, k):
        return s.per(ip, lambda v: ip.getitem(v, k, None))

    def s_len(s, ip):
        return s.per(ip, lambda v: ip.call(len, [v], {}))

    def s_binop(s, ip, op, o, sw):
        b = next(x for x in BIN.values() if x[0] == op)
        return s.per(ip, lambda v: ip.binop(b, o, v, None) if sw else ip.binop(b, v, o, None))

    def s_contains(s, ip, x):
        return wrap(s.guard(ip, lambda v: ip.compare(ast.In(), x, v, None)))

    def s_type(s, ip):
        return s.per(ip, lambda v: ip.call(type, [v], {}))

    def s_isinstance(s, ip, k):
        return wrap(s.guard(ip, lambda v: ip.call(isinstance, [v, k], {})))


def truth_guard(ip, v):
    if isinstance(v, Cond):
        return v.g
    if isinstance(v, Sym):
        if hasattr(v, 'truth_guard'):
            return v.truth_guard(ip)
        return bool(v.s_truth(ip))
    return bool(v)


def join(cases):
    flat = []
    for g, v in cases:
        if isinstance(v, Ite):
            flat += [(AND(g, h), x) for h, x in v.cases]
        else:
            flat.append((g, v))
    flat = [(g, v) for g, v in flat if g is not False]
    if flat and all(v is flat[0][1] for g, v in flat):
        return flat[0][1]
    if flat and all(isinstance(v, (bool, Cond)) for g, v in flat):
        return wrap(OR(*[AND(g, v.g if isinstance(v, Cond) else v) for g, v in flat]))
    return Ite(flat)


def split(v):
    return v.cases if isinstance(v, Ite) else [(True, v)]


# -------------------------------------------------------------------- world
class GuardWorld(World):
    """states: name -> possible states.  path: what the forks taken say."""

    def ginit(w, states):
        w.states = states
        w.path, w.alive, w.stack, w.skips = True, True, [], []
        w.own_lists, w.own_guard = [], {}

    def now(w): return AND(w.path, w.rel())

    def rel(w): return AND(w.alive, *(w.stack + w.skips))

    def assignments(w, *gs, extra=()):
        sup = set(extra)
        for g in gs:
            support(g, sup)
        n = 1
        for p in sup:
            n *= len(w.states[p])
        if n > 60000:
            raise Unsupported('a condition on too many keywords')
        sup = sorted(sup)
        for c in itertools.product(*[w.states[p] for p in sup]):
            yield dict(zip(sup, c))

    def sat(w, g):
        if isinstance(g, bool):
            return g
        return any(holds(g, a) for a in w.assignments(g))

    def fork(w, ip, g):
        if isinstance(g, bool):
            return g
        t, f = w.sat(AND(w.now(), g)), w.sat(AND(w.now(), NOT(g)))
        if not t or not f:
            return t
        if ip.ex.choose(2):
            w.path = AND(w.path, OR(NOT(w.rel()), NOT(g)))
            return False
        w.path = AND(w.path, OR(NOT(w.rel()), g))
        return True

    def must(w, ip, g, exc):
        """The operation raises exc unless g."""
        if w.sat(AND(w.now(), NOT(g))):
            w.raising(ip, NOT(g), exc)

    def raising(w, ip, g, exc):
        if not w.sat(AND(w.now(), NOT(g))):
            raise PyRaise(exc)
        # either way: fork the path
        if not w.fork(ip, NOT(g)):
            raise PyRaise(exc)

    def under(w, ip, g, f):
        w.stack.append(g)
        try:
            return f()
        finally:
            w.stack.pop()

    def sym_ifexp(w, ip, t, e, fr):
        if not hasattr(t, 'truth_guard') and not isinstance(t, Cond):
            return NotImplemented
        g = truth_guard(ip, t)
        if isinstance(g, bool) or not w.sat(AND(w.now(), g)) or not w.sat(AND(w.now(), NOT(g))):
            return NotImplemented
        a = w.under(ip, g, lambda: ip.ev(e.body, fr))
        b = w.under(ip, NOT(g), lambda: ip.ev(e.orelse, fr))
        return join([(g, a), (NOT(g), b)])

    def sym_boolop(w, ip, v, rest, is_and, fr):
        if not hasattr(v, 'truth_guard') and not isinstance(v, Cond):
            return NotImplemented
        g = truth_guard(ip, v)
        if isinstance(g, bool):
            return NotImplemented
        stop = NOT(g) if is_and else g
        if not w.sat(AND(w.now(), stop)) or not w.sat(AND(w.now(), NOT(stop))):
            return NotImplemented
        r = w.under(ip, NOT(stop), lambda: ip.boolop(rest, is_and, fr))
        return join([(stop, v), (NOT(stop), r)])

    def own(w, xs):
        w.own_lists.append(xs)
        w.own_guard[id(xs)] = repr(w.rel())
        return xs

    def may_mutate(w, ip, o):
        """Its own list, and the change happens whenever the list exists."""
        return any(o is x for x in w.own_lists) and (w.rel() is True or w.own_guard.get(id(o)) == repr(w.rel()))

    def list_display(w, ip, xs): return w.own(xs)
    def dict_display(w, ip, d, e): return w.own(d)


class _Loop:
    def __init__(s, frame): s.frame, s.iter, s.all, s.dirty = frame, [], [], set()


class GuardInterp(Interp):
    def __init__(self, ex, world):
        super().__init__(ex, world)
        self.loops = []

    # -- statements
    def stmt(self, s, fr):
        if isinstance(s, ast.If):
            t = self.ev(s.test, fr)
            if isinstance(t, Sym) and self.guarded_if(t, s, fr):
                return
            self.block(s.body if self.truth(t) else s.orelse, fr)
            return
        super().stmt(s, fr)

    def arm(self, stmts, g, fr):
        """Run statements under a guard; None or how they leave: (kind, value)."""
        w = self.w
        w.stack.append(g)
        try:
            self.block(stmts, fr)
        except _Continue:
            return 'continue', None
        except _Break:
            return 'break', None
        except _Return as r:
            return 'return', r.v
        except PyRaise:
            rel = w.rel()
            if not w.sat(AND(w.path, NOT(rel))):
                raise
            if not self.ex.choose(2):
                w.path = AND(w.path, rel)
                raise
            w.path = AND(w.path, NOT(rel))
            return 'dead', None
        finally:
            w.stack.pop()
        return None

    def guarded_if(self, t, s, fr):
        w = self.w
        if not hasattr(t, 'truth_guard') and not isinstance(t, Cond):
            return False
        g = truth_guard(self, t)
        if isinstance(g, bool) or not w.sat(AND(w.now(), g)) or not w.sat(AND(w.now(), NOT(g))):
            return False
        if any(isinstance(n, (ast.Raise, ast.Try, ast.FunctionDef, ast.Lambda, ast.While)) for x in s.body + s.orelse for n in ast.walk(x)):
            return False
        before = dict(fr.vars)
        here = w.rel()
        r1 = self.arm(s.body, g, fr)
        one = dict(fr.vars)
        fr.vars.clear()
        fr.vars.update(before)
        r2 = self.arm(s.orelse, NOT(g), fr)
        two = dict(fr.vars)
        for n in set(one) | set(two):
            if n in one and n in two:
                if one[n] is not two[n]:
                    fr.vars[n] = join([(AND(here, g), one[n]), (NOT(AND(here, g)), two[n])])
            else:
                fr.vars[n] = one.get(n, two.get(n))
                fr.maybe = getattr(fr, 'maybe', set()) | {n}
        if r1 and r2:
            if r1[0] == r2[0] and r1[0] in ('continue', 'break'):
                self.leave(*r1)
            if r1[0] == 'return' and r2[0] == 'return':
                raise _Return(join([(g, r1[1]), (NOT(g), r2[1])]))
            self.skip(r1, AND(here, g), fr)
            self.leave(*r2)
        if r1:
            self.skip(r1, AND(here, g), fr)
        if r2:
            self.skip(r2, AND(here, NOT(g)), fr)
        return True

    def leave(self, kind, v):
        if kind == 'continue':
            raise _Continue()
        if kind == 'break':
            raise _Break()
        if kind == 'return':
            raise _Return(v)
        raise Unsupported('both arms end')

    def skip(self, r, g, fr):
        """What follows happens only when g does not hold."""
        kind, v = r
        if kind == 'dead':
            return
        n = NOT(g)
        if kind == 'return':
            fr.returns = getattr(fr, 'returns', []) + [(g, v)]
            fr.skips = getattr(fr, 'skips', []) + [n]
        else:
            if not self.loops or self.loops[-1].frame is not fr:
                raise Unsupported('%s on a condition in this kind of loop' % kind)
            (self.loops[-1].iter if kind == 'continue' else self.loops[-1].all).append(n)
        self.reskip()

    def reskip(self):
        self.w.skips = [n for l in self.loops for n in l.all + l.iter] + [n for f in self.frames for n in getattr(f, 'skips', [])]

    def run_body(self, body, fr, node):
        if not hasattr(fr, 'skips'):
            fr.skips, fr.returns = [], []
        loops, self.loops = self.loops, list(self.loops)
        outer = list(self.w.skips)
        try:
            r = super().run_body(body, fr, node)
        finally:
            self.loops = loops
            self.w.skips = outer
        if fr.returns:
            rest = NOT(OR(*[g for g, v in fr.returns]))
            r = join(fr.returns + [(rest, r)])
        return r

    def assign(self, g, v, fr):
        if isinstance(g, ast.Name):
            if getattr(fr, 'maybe', None):
                fr.maybe = fr.maybe - {g.id}
            for l in self.loops:
                if l.frame is fr and (l.iter or l.all):
                    l.dirty.add(g.id)
        super().assign(g, v, fr)

    def for_(self, s, fr):
        it = self.ev(s.iter, fr)
        if isinstance(it, Sym):
            r = it.s_loop(self, s, fr, None)
            if r is not NotImplemented:
                return
            it = it.s_iter(self)
        else:
            r = self.w.for_native(self, s, fr, it)
            if r is not NotImplemented:
                return
        if isinstance(it, dict):
            it = list(it)
        L = _Loop(fr)
        self.loops.append(L)
        broke = False
        try:
            for i, x in enumerate(it):
                self.assign(s.target, x, fr)
                self.pos.append(('for', i, it))
                try:
                    self.block(s.body, fr)
                except _Break:
                    broke = True
                    break
                except _Continue:
                    continue
                finally:
                    self.pos.pop()
                    if L.iter:
                        fr.maybe = getattr(fr, 'maybe', set()) | L.dirty
                        L.iter, L.dirty = [], set()
                        self.reskip()
        finally:
            self.loops.pop()
            if L.all:
                fr.maybe = getattr(fr, 'maybe', set()) | L.dirty
            alls = L.all
            self.reskip()
        if not broke:
            if s.orelse and alls:
                raise Unsupported('else of a loop left on a condition')
            self.block(s.orelse, fr)

    def while_(self, s, fr):
        n = len(self.loops)
        self.loops.append(None)          # no conditional exits from here
        loops, self.loops = self.loops, []
        try:
            super().while_(s, fr)
        finally:
            self.loops = loops[:n]

    def boolop(self, values, is_and, fr):
        v = None
        for i, x in enumerate(values):
            v = self.ev(x, fr)
            if i + 1 == len(values):
                return v
            if isinstance(v, Sym):
                r = self.w.sym_boolop(self, v, values[i + 1:], is_and, fr)
                if r is not NotImplemented:
                    return r
            if self.truth(v) != is_and:
                return v
        return v

    def ev(self, e, fr):
        if isinstance(e, ast.IfExp):
            t = self.ev(e.test, fr)
            if isinstance(t, Sym):
                r = self.w.sym_ifexp(self, t, e, fr)
                if r is not NotImplemented:
                    return r
            return self.ev(e.body if self.truth(t) else e.orelse, fr)
        if isinstance(e, ast.BoolOp):
            return self.boolop(e.values, isinstance(e.op, ast.And), fr)
        if isinstance(e, ast.Name) and e.id in getattr(fr, 'maybe', ()):
            self.unsupported('variable bound on some paths only', e)
        return super().ev(e, fr)

