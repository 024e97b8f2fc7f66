"""Heap logic for the accessor proofs: objects, fields and lists.

  to-one field f      Obj -> Obj          (NONE when empty)
  to-many field g     Obj -> Int          (identity of the list object)
  contents            Int x Obj -> Int    (how often the list holds the object)

Heaps are functional: a base of uninterpreted functions and a chain of updates;
reads are evaluated eagerly, so every formula handed to z3 is ground.  Universal
facts (Forall) are instantiated by this module over the ground object terms of
the query: dropping instances can only lose proofs, never create them."""
import itertools, time
import z3
from . import budget

Obj = z3.DeclareSort('Obj')
Int = z3.IntSort()
NONE = z3.Const('None', Obj)
_n = itertools.count()


def fresh(sort, name):
    return z3.Const('%s!%d' % (name, next(_n)), sort)


def fresh_fn(name, *sorts):
    return z3.Function('%s!%d' % (name, next(_n)), *sorts)


def eq(a, b):
    return True if a.eq(b) else a == b


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return a
    return z3.If(c, a, b)


def And(*cs):
    cs = [c for c in cs if c is not True]
    return z3.BoolVal(False) if any(c is False for c in cs) else z3.And(*cs) if len(cs) > 1 else cs[0] if cs else z3.BoolVal(True)


def Or(*cs):
    cs = [c for c in cs if c is not False]
    return z3.BoolVal(True) if any(c is True for c in cs) else z3.Or(*cs) if len(cs) > 1 else cs[0] if cs else z3.BoolVal(False)


def Not(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def Implies(a, b):
    return Or(Not(a), b)


class Forall:
    """Universally quantified fact over objects."""
    __slots__ = ('n', 'fn', 'name', 'cache')

    def __init__(s, n, fn, name=''):
        s.n, s.fn, s.name, s.cache = n, fn, name, {}

    def inst(s, tup):
        key = tuple(t.get_id() for t in tup)
        r = s.cache.get(key)
        if r is None:
            e = s.fn(*tup)
            if e is not True:
                e = as_expr(e)
            s.cache[key] = r = (e, tup)
        return r[0]


class Heap:
    """Mutable symbolic heap; copy() is cheap."""

    def __init__(s):
        s.one = {}          # field -> (base fn, [(idx, val)])
        s.many = {}         # field -> (base fn, [(idx, lid)])
        s.cbase = None      # Int x Obj -> Int
        s.cont = []         # [(lid, content fn)]  latest last
        s.next = None

    def copy(s):
        h = Heap()
        h.one = {k: (b, list(u)) for k, (b, u) in s.one.items()}
        h.many = {k: (b, list(u)) for k, (b, u) in s.many.items()}
        h.cbase, h.cont, h.next = s.cbase, list(s.cont), s.next
        return h

    def rd1(s, f, a):
        b, u = s.one[f]
        v = b(a)
        for i, x in u:
            v = ite(eq(i, a), x, v)
        return v

    def rdl(s, f, a):
        b, u = s.many[f]
        v = b(a)
        for i, x in u:
            v = ite(eq(i, a), x, v)
        return v

    def wr(s, m, f, a, v):
        b, u = m[f]
        m[f] = (b, [(i, x) for i, x in u if not i.eq(a)] + [(a, v)])

    def wr1(s, f, a, v): s.wr(s.one, f, a, v)
    def wrl(s, f, a, v): s.wr(s.many, f, a, v)

    def count(s, lid, o):
        v = s.cbase(lid, o)
        for i, c in s.cont:
            v = ite(eq(i, lid), c(o), v)
        return v

    def setc(s, lid, fn):
        s.cont = [(i, c) for i, c in s.cont if not i.eq(lid)] + [(lid, fn)]

    def content(s, lid):
        """Snapshot of the contents of a list as a function."""
        base, cont = s.cbase, list(s.cont)

        def fn(o):
            v = base(lid, o)
            for i, c in cont:
                v = ite(eq(i, lid), c(o), v)
            return v
        return fn

    def view(s, f, a, o):
        return s.count(s.rdl(f, a), o)


# ---------------------------------------------------------------- solving
STATS = dict(queries=0, time=0.0, unknown=0)


def obj_terms(e, out, seen):
    st = [e]
    while st:
        e = st.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        if e.sort() == Obj and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.setdefault(k, e)
        st.extend(e.children())


def as_expr(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def patterns(v, e):
    """Triggers of a one-variable fact: every smallest application to the variable."""
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(c.eq(v) for c in x.children()):
            out.append(x)
        st.extend(x.children())
    return out[:8]


def quantified(q):
    """The Forall as a z3 quantifier (built once)."""
    r = q.cache.get('z3')
    if r is None:
        vs = [fresh(Obj, 'v') for _ in range(q.n)]
        e = q.fn(*vs)
        r = True if e is True else z3.BoolVal(False) if e is False else z3.ForAll(vs, e, patterns=patterns(vs[0], e) if q.n == 1 else [])
        q.cache['z3'] = r
    return r


def check(facts, timeout=3000):
    """'unsat' or something else.  Universal facts go to z3's E-matching; model
    based instantiation is off, so a query that is not refuted ends quickly with
    'unknown', which is never reported as anything but 'not proved'."""
    t0 = time.time()
    STATS['queries'] += 1
    if budget.over():
        return 'unknown'
    s = z3.SimpleSolver()
    s.set('timeout', timeout)
    s.set('random_seed', 0)
    s.set('auto_config', False)
    s.set('mbqi', False)
    for f in facts:
        f = quantified(f) if isinstance(f, Forall) else f
        if f is not True:
            s.add(as_expr(f))
    v = str(s.check())
    dt = time.time() - t0
    STATS['time'] += dt
    STATS['max'] = max(STATS.get('max', 0), dt)
    if v != 'unsat' and dt > timeout / 1000 * .9:
        STATS['unknown'] += 1
    return v


def skolem(goal):
    """Negated goal: ground formula with fresh constants."""
    if isinstance(goal, Forall):
        return Not(goal.fn(*[fresh(Obj, 'sk') for _ in range(goal.n)]))
    return Not(goal)


def valid(facts, goal, **kw):
    return check(list(facts) + [skolem(goal)], **kw)
