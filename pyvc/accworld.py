"""Accessor world: the symbolic values and the loop rule for property getters,
setters and the add/remove methods of CIM classes."""
import ast, inspect, types
import z3
from . import src
from .interp import Sym, World, Interp, Explorer, Unsupported, PyRaise, PathEnd, Bound, Frame, _Return, _Break, _Continue
from .heap import *
from .heap import check as zcheck


DEBUG = False


class Restart(Exception):
    """A field was discovered late: start again with it known."""


def is_none(v):
    return v is None


class SObj(Sym):
    def __init__(s, w, t, key):
        s.w, s.t, s.key = w, t, key

    def nonnull(s, ip):
        c = eq(s.t, NONE)
        if c is True or ip.ex.branch(c, Not(c)):
            raise PyRaise(AttributeError, "attribute of None")

    def narrow(s, ip):
        """Static class of an object with alternative classes: a case split."""
        if s.key == '*':
            ks = s.w.m.targets('*')
            for k in ks[:-1]:
                c = s.w.classof(s.t) == s.w.classid(s.w.pycls(k))
                if ip.ex.branch(c, Not(c)):
                    return SObj(s.w, s.t, k)
            ip.ex.assume(s.w.classof(s.t) == s.w.classid(s.w.pycls(ks[-1])))
            return SObj(s.w, s.t, ks[-1])
        return s

    def s_getattr(s, ip, name):
        s.nonnull(ip)
        if name == '__class__':
            return s.s_type(ip)
        s = s.narrow(ip)
        K = s.w.pycls(s.key)
        try:
            a = inspect.getattr_static(K, name)
        except AttributeError:
            return s.w.read(ip, s, name)
        if isinstance(a, property):
            if a.fget is None:
                raise PyRaise(AttributeError(name))
            return ip.call(a.fget, [s], {})
        if isinstance(a, types.FunctionType):
            return Bound(a, s)
        if isinstance(a, (list, dict, str, int, float, bool, tuple)) or a is None:
            return a
        raise Unsupported('class attribute %s of kind %s' % (name, type(a).__name__))

    def s_setattr(s, ip, name, v):
        s.nonnull(ip)
        s = s.narrow(ip)
        K = s.w.pycls(s.key)
        a = inspect.getattr_static(K, name, None)
        if isinstance(a, property):
            if a.fset is None:
                raise PyRaise(AttributeError(name))
            ip.call(a.fset, [s, v], {})
            return
        if a is not None and hasattr(a, '__set__'):
            raise Unsupported('data descriptor ' + name)
        s.w.write(ip, s, name, v)

    def s_truth(s, ip):
        c = eq(s.t, NONE)
        return not c if isinstance(c, bool) else ip.ex.branch(Not(c), c)

    def s_cmp(s, ip, op, o, sw):
        if op not in ('==', '!=', 'is', 'is not'):
            raise PyRaise(TypeError('ordering of CIM objects'))
        if o is None:
            c = eq(s.t, NONE)
        elif isinstance(o, SObj):
            c = eq(s.t, o.t)
        elif isinstance(o, (SList, SSeq)):
            c = False
        elif isinstance(o, Sym):
            raise Unsupported('comparison')
        else:
            c = False
        return SBool.of(Not(c) if op in ('!=', 'is not') else c)

    def s_type(s, ip):
        return STypeOf(s.w, s.t)

    def s_isinstance(s, ip, k):
        return s.w.isinstance(ip, s, k)


class STypeOf(Sym):
    def __init__(s, w, t):
        s.w, s.t = w, t

    def s_cmp(s, ip, op, o, sw):
        if op not in ('is', '==', 'is not', '!='):
            raise PyRaise(TypeError('ordering of classes'))
        if isinstance(o, STypeOf):
            c = s.w.classof(s.t) == s.w.classof(o.t)
        elif not isinstance(o, type):
            raise Unsupported('comparison with a type')
        else:
            c = s.w.classof(s.t) == s.w.classid(o)
        return SBool.of(Not(c) if op in ('!=', 'is not') else c)

    def s_getattr(s, ip, name):
        raise Unsupported('attribute of type()')


class SBool(Sym):
    def __init__(s, c):
        s.c = c

    @staticmethod
    def of(c):
        return c if isinstance(c, bool) else SBool(c)

    def s_truth(s, ip):
        return ip.ex.branch(s.c, Not(s.c))

    def s_not(s, ip):
        return SBool.of(Not(s.c))

    def s_cmp(s, ip, op, o, sw):
        if isinstance(o, bool) and op in ('==', 'is', '!=', 'is not'):
            return SBool.of(s.c if o == (op in ('==', 'is')) else Not(s.c))
        raise Unsupported('comparison of booleans')


class SLen(Sym):
    def __init__(s, seq):
        s.seq = seq

    def s_truth(s, ip):
        return s.seq.s_truth(ip)

    def s_cmp(s, ip, op, o, sw):
        ne = {('>', 0): True, ('>=', 1): True, ('!=', 0): True, ('==', 0): False, ('<', 1): False, ('<=', 0): False}
        if isinstance(o, int) and (op, int(o)) in ne:
            return s.s_truth(ip) == ne[(op, int(o))]
        raise Unsupported('comparison of a length')


class Poison(Sym):
    """Value of a variable that a loop body assigns: unknown afterwards."""


class SSeq(Sym):
    """Immutable sequence of objects: contents as a function Obj -> Int."""

    def __init__(s, w, fn, key, isset=False):
        s.w, s.fn, s.key, s.isset = w, fn, key, isset

    def content(s):
        return s.fn

    def s_truth(s, ip):
        return s.w.nonempty(ip, s.content())

    def s_len(s, ip):
        return SLen(s)

    def s_contains(s, ip, x):
        if x is None:
            return SBool.of(s.content()(NONE) > 0)
        if not isinstance(x, SObj):
            raise Unsupported('membership of a non-object')
        return SBool.of(s.content()(x.t) > 0)

    def s_cmp(s, ip, op, o, sw):
        if o is None:
            return op in ('!=', 'is not')
        if isinstance(o, (SSeq, SList)) and op in ('is', 'is not'):
            if isinstance(s, SList) and isinstance(o, SList):
                c = eq(s.lid, o.lid)
            elif s is o:
                c = True
            else:
                c = False
            return SBool.of(c if op == 'is' else Not(c))
        if isinstance(o, SObj):
            return op in ('!=', 'is not')
        raise Unsupported('comparison of sequences')

    def s_loop(s, ip, node, fr, body):
        return s.w.loop(ip, node, fr, s)

    def s_binop(s, ip, op, o, sw):
        if op in ('-', '&', '|') and s.isset and isinstance(o, SSeq) and o.isset:
            a, b = (o.content(), s.content()) if sw else (s.content(), o.content())
            f = {'-': lambda x: And(a(x) > 0, Not(b(x) > 0)), '&': lambda x: And(a(x) > 0, b(x) > 0), '|': lambda x: Or(a(x) > 0, b(x) > 0)}[op]
            return SSeq(s.w, lambda x: z3.If(f(x), 1, 0), s.key, True)
        if op == '+' and isinstance(o, SSeq) and isinstance(o, SList) == isinstance(s, SList) and not s.isset:
            a, b = s.content(), o.content()
            fn = lambda x: a(x) + b(x)
            return s.w.alloc(fn, s.key) if isinstance(s, SList) else SSeq(s.w, fn, s.key)
        raise Unsupported('operator %s on a sequence' % op)

    def s_getitem(s, ip, k):
        if isinstance(k, slice) and k.start in (None, 0) and k.stop is None and k.step in (None, 1, -1):
            return s.w.alloc(s.content(), s.key) if isinstance(s, SList) else s
        raise Unsupported('subscript of a sequence')

    def s_getattr(s, ip, name):
        if name == 'count':
            return SMeth(s, name)
        raise Unsupported('attribute %s of a sequence' % name)

    def s_isinstance(s, ip, k):
        ks = k if isinstance(k, tuple) else (k,)
        if s.isset:
            return any(x in (set, object) for x in ks)
        return any(x in (tuple, object) for x in ks)


class SCount(Sym):
    def __init__(s, t):
        s.t = t

    def s_truth(s, ip):
        return ip.ex.branch(s.t > 0, Not(s.t > 0))

    def s_cmp(s, ip, op, o, sw):
        if isinstance(o, int):
            t = s.t
            return SBool({'==': t == o, '!=': t != o, '<': t < o, '<=': t <= o, '>': t > o, '>=': t >= o}[op])
        raise Unsupported('comparison of a count')


class SMeth(Sym):
    def __init__(s, o, name):
        s.o, s.name = o, name

    def s_call(s, ip, args, kw):
        if kw:
            raise Unsupported('keyword arguments')
        return getattr(s.o, 'm_' + s.name)(ip, *args)


class SList(SSeq):
    """A list object: identity lid, contents in the heap."""

    def __init__(s, w, lid, key):
        s.w, s.lid, s.key, s.isset = w, lid, key, False

    def content(s):
        return s.w.heap.content(s.lid)

    def s_isinstance(s, ip, k):
        ks = k if isinstance(k, tuple) else (k,)
        return any(x in (list, object) for x in ks)

    def s_getattr(s, ip, name):
        if name in ('append', 'remove', 'extend', 'insert', 'clear', 'copy', 'count'):
            return SMeth(s, name)
        raise Unsupported('list.' + name)

    def obj(s, x):
        if x is None:
            return NONE
        if not isinstance(x, SObj):
            raise Unsupported('list element that is no object')
        return x.t

    def upd(s, fn):
        s.w.heap.setc(s.lid, fn)

    def m_append(s, ip, x):
        t, c = s.obj(x), s.content()
        s.upd(lambda o: ite(eq(o, t), c(o) + 1, c(o)))

    def m_insert(s, ip, i, x):
        if isinstance(i, Sym):
            raise Unsupported('insert position')
        s.m_append(ip, x)

    def m_remove(s, ip, x):
        t, c = s.obj(x), s.content()
        if not ip.ex.branch(c(t) > 0, Not(c(t) > 0)):
            raise PyRaise(ValueError('list.remove(x): x not in list'))
        s.upd(lambda o: ite(eq(o, t), c(o) - 1, c(o)))

    def m_extend(s, ip, v):
        c, d = s.content(), s.w.seq(v).content()
        s.upd(lambda o: c(o) + d(o))

    def m_clear(s, ip):
        s.upd(lambda o: z3.IntVal(0))

    def m_copy(s, ip):
        return s.w.alloc(s.content(), s.key)

    def m_count(s, ip, x):
        return SCount(s.content()(s.obj(x)))

    def s_inplace(s, ip, op, v):
        if op != '+':
            raise Unsupported('in-place operator')
        s.m_extend(ip, v)
        return s

    def full(s, k):
        if not (isinstance(k, slice) and k.start in (None, 0) and k.stop is None and k.step in (None, 1)):
            raise Unsupported('list slice assignment')

    def s_setitem(s, ip, k, v):
        s.full(k)
        s.upd(s.w.seq(v).content())

    def s_delitem(s, ip, k):
        s.full(k)
        s.m_clear(ip)


SSeq.m_count = lambda s, ip, x: SCount(s.content()(x.t))


class Star:
    is_star = True

    def __init__(s, seq):
        s.seq = seq


class AccWorld(World):
    """Fields are identified by (declaring class, attribute name)."""

    def __init__(self, model):
        self.m = model
        self.bases = {}            # field -> base function of the initial state
        self.fieldinfo = {}
        self.heap = None
        self.contracts = {}        # function -> transformer(ip, self, value)
        self.pre_failed = []
        self.memo = {}
        self.used_contracts = set()
        self.touched = set()
        self.inlined = set()
        self.loops = 0
        self.ctx, self.nctx = 0, 0
        self.loopinfo = []
        self.ghost = []            # (name, fact maker) extra loop candidates
        self.subjects = []
        self.lids = []
        self.facts = []
        self.classof = z3.Function('classof', Obj, Int)
        self.classids = {}

    def classid(self, k):
        return z3.IntVal(self.classids.setdefault(k, len(self.classids)))

    def pycls(self, key):
        return self.m.cls(key)

    # ------------------------------------------------------------ fields
    def resolve(self, key, attr):
        """(declaring class, attribute) -> field, many?, target or None."""
        for k in reversed(self.m.mro(key)):
            st = storages(self.m, k)
            if attr in st:
                return field_key(self.m, k, attr, st[attr]), st[attr]
        return None

    def field(self, f, many):
        if f not in self.bases:
            nm = '%s' % f[1]
            self.bases[f] = z3.Function('%s@%d' % (nm, len(self.bases)), Obj, Int if many else Obj)
            self.fieldinfo[f] = many
            raise Restart()
        return f

    def read(self, ip, o, attr):
        r = self.resolve(o.key, attr)
        if r is None:
            raise Unsupported('attribute %s of %s' % (attr, o.key))
        f, ref = r
        self.field(f, ref[1])
        tgt = ref[2]
        if ref[1]:
            return SList(self, self.heap.rdl(f, o.t), tgt)
        return SObj(self, self.heap.rd1(f, o.t), tgt)

    def write(self, ip, o, attr, v):
        r = self.resolve(o.key, attr)
        if r is None:
            raise Unsupported('assignment to attribute %s of %s' % (attr, o.key))
        f, ref = r
        self.field(f, ref[1])
        self.touched.add(f)
        if ref[1]:
            if not isinstance(v, SList):
                raise Unsupported('storing a non-list in a to-many reference')
            self.heap.wrl(f, o.t, v.lid)
        else:
            if v is None:
                t = NONE
            elif isinstance(v, SObj):
                t = v.t
            else:
                raise Unsupported('storing a non-object in a to-one reference')
            self.heap.wr1(f, o.t, t)

    def isinstance(self, ip, o, k):
        ks = k if isinstance(k, tuple) else (k,)
        if any(not isinstance(x, type) for x in ks):
            raise Unsupported('isinstance')
        c = eq(o.t, NONE)
        if c is True or c is not False and ip.ex.branch(c, Not(c)):
            return type(None) in ks or object in ks
        keys = self.m.targets('*') if o.key == '*' else self.m.subclasses(o.key)
        yes = [x for x in keys if issubclass(self.pycls(x), ks)]
        if len(yes) == len(keys) or not yes:
            return bool(yes)
        c = Or(*[self.classof(o.t) == self.classid(self.pycls(x)) for x in yes])
        return SBool.of(c)

    # ------------------------------------------------------------ lists
    def alloc(self, fn, key):
        lid = self.heap.next
        self.heap.next = lid + 1
        self.heap.setc(lid, fn)
        return SList(self, lid, key)

    def list_display(self, ip, xs):
        if isinstance(xs, list) and all(isinstance(x, SObj) or x is None for x in xs):
            ts = [NONE if x is None else x.t for x in xs]

            def fn(o):
                v = z3.IntVal(0)
                for t in ts:
                    c = eq(o, t)
                    v = v + (1 if c is True else z3.If(c, 1, 0))
                return v
            return self.alloc(fn, xs[0].key if xs and xs[0] is not None else None)
        return xs

    def seq(self, v):
        if isinstance(v, SSeq):
            return v
        if isinstance(v, (list, tuple)) and all(isinstance(x, SObj) for x in v):
            ts = [x.t for x in v]

            def fn(o):
                c = z3.IntVal(0)
                for t in ts:
                    e = eq(o, t)
                    c = c + (1 if e is True else z3.If(e, 1, 0))
                return c
            return SSeq(self, fn, v[0].key if v else None)
        raise Unsupported('sequence expected')

    def new_list(self, ip, v):
        v = self.seq(v)
        return self.alloc(v.content(), v.key)

    def new_tuple(self, ip, v):
        v = self.seq(v)
        return SSeq(self, v.content(), v.key)

    def star(self, ip, v):
        v = self.seq(v)
        return Star(SSeq(self, v.content(), v.key))

    def nonempty(self, ip, c):
        w = fresh(Obj, 'w')
        pos = c(w) > 0
        return ip.ex.branch(pos, Forall(1, lambda o: Not(c(o) > 0)))

    def native_method(self, ip, m, name, args, kw):
        return NotImplemented

    def call(self, ip, f, args, kw):
        if f in (set, frozenset) and len(args) == 1 and isinstance(args[0], SSeq) and not kw:
            c = args[0].content()
            return SSeq(self, lambda o: z3.If(c(o) > 0, 1, 0), args[0].key, True)
        if f is list and not args and not kw:
            return self.alloc(lambda o: z3.IntVal(0), None)
        if f is reversed and len(args) == 1 and isinstance(args[0], SSeq):
            return args[0]
        if f is sorted and len(args) == 1 and isinstance(args[0], SSeq) and 'key' in kw:
            raise Unsupported('sorted')
        if f is isinstance and isinstance(args[0], SObj):
            return self.isinstance(ip, args[0], args[1])
        if isinstance(f, types.FunctionType):
            c = self.contracts.get(f)
            if c is not None and not kw:
                r = c(ip, args)
                if r is not NotImplemented:
                    self.used_contracts.add(f)
                    return None
            self.inlined.add(f)
        return NotImplemented

    # ------------------------------------------------------------ comprehension
    def comp_sym(self, ip, e, it, sub):
        if not isinstance(it, SSeq):
            return NotImplemented
        g = e.generators[0]
        if not (isinstance(g.target, ast.Name) and isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and
                isinstance(e.elt, ast.Name) and e.elt.id == g.target.id):
            raise Unsupported('comprehension')
        c = fresh(Obj, 'c')
        source = it.content()
        outer, h0 = ip.ex, self.heap
        base = self.facts + list(outer.pc) + [source(c) > 0]
        disj, raised = [], []

        def thunk(ex):
            ip.ex = ex
            self.heap = h0.copy()
            sub.vars[g.target.id] = SObj(self, c, it.key)
            try:
                ok = all(ip.truth(ip.ev(x, sub)) for x in g.ifs)
            except PyRaise as x:
                raised.append((list(ex.pc), x))
                return
            if not same_heap(h0, self.heap):
                raise Unsupported('comprehension with effects')
            if any(isinstance(p, Forall) for p in ex.pc):
                raise Unsupported('quantified condition in a comprehension')
            if ok:
                disj.append(And(*ex.pc))
        sx = Explorer(lambda pc: zcheck(base + pc) != 'unsat', 200)
        ctx, kf = self.ctx, self.facts
        self.facts = base
        self.nctx += 1
        self.ctx = self.nctx
        try:
            for _ in sx.run(thunk):
                pass
        finally:
            ip.ex, self.heap, self.ctx, self.facts = outer, h0, ctx, kf
        for pc, x in raised:
            if ip.ex.choose(2) == 0:
                for p in [source(c) > 0] + pc:
                    ip.ex.assume(p)
                raise x
        phi = Or(*disj)

        def fn(o):
            return z3.If(z3.substitute(phi, (c, o)), source(o), z3.IntVal(0))
        if isinstance(e, ast.SetComp):
            return SSeq(self, lambda o: z3.If(fn(o) > 0, 1, 0), it.key, True)
        return self.alloc(fn, it.key) if isinstance(e, ast.ListComp) else SSeq(self, fn, it.key)

    # ------------------------------------------------------------ loops
    def loop(self, ip, node, fr, seq):
        if node.orelse or not isinstance(node.target, ast.Name):
            raise Unsupported('loop form')
        for n in ast.walk(node):
            if isinstance(n, (ast.Break, ast.Return, ast.Yield)):
                raise Unsupported('loop with break or return')
        self.loops += 1
        outer = ip.ex
        source = seq.content()
        self.flatten(outer)
        E = self.heap.copy()
        base = self.facts + list(outer.pc) + [Forall(1, lambda o: source(o) >= 0)]
        assigned = {n.id for s in node.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for n in assigned:
            fr.vars[n] = Poison()
        subjects, lids = list(self.subjects), list(self.lids)
        for v in fr.vars.values():
            if isinstance(v, SObj) and not any(v.t.eq(t) for t in subjects):
                subjects.append(v.t)
            if isinstance(v, SList) and not any(v.lid.eq(t) for t in lids):
                lids.append(v.lid)
        if isinstance(seq, SList) and not any(seq.lid.eq(t) for t in lids):
            lids.append(seq.lid)
        saved = dict(fr.vars)

        def body(facts, H, x):
            """All outcomes of one iteration: (kind, heap, path condition)."""
            out = []

            def thunk(ex):
                ip.ex = ex
                self.heap = H.copy()
                fr.vars.clear()
                fr.vars.update(saved)
                fr.vars[node.target.id] = SObj(self, x, seq.key)
                try:
                    ip.block(node.body, fr)
                except _Continue:
                    pass
                except PyRaise as e:
                    return out.append(('raise', e, list(ex.pc)))
                out.append(('end', self.heap, list(ex.pc)))
            sx = Explorer(lambda pc: zcheck(facts + pc) != 'unsat', 300)
            depth, ctx, kf = ip.depth, self.ctx, self.facts
            self.facts = facts
            self.nctx += 1
            self.ctx = self.nctx
            try:
                for _ in sx.run(thunk):
                    pass
            finally:
                ip.ex, self.heap, ip.depth, self.ctx, self.facts = outer, E, depth, ctx, kf
                fr.vars.clear()
                fr.vars.update(saved)
            return out

        def havoc(mod):
            H = E.copy()
            for f in mod:
                if f == 'lists':
                    H.cbase = fresh_fn('cnt', Int, Obj, Int)
                    H.cont = []
                    H.next = fresh(Int, 'next')
                elif f in H.one:
                    H.one[f] = (fresh_fn(f[1], Obj, Obj), [])
                else:
                    H.many[f] = (fresh_fn(f[1], Obj, Int), [])
            return H

        key = (self.ctx, tuple(outer.taken), id(node), ip.depth)
        memo = self.memo.get(key)
        if memo is None:
            # which parts of the heap can an iteration change at all
            x = fresh(Obj, 'x')
            mod = set()
            while True:
                H = havoc(mod)
                new = set()
                npf = len(self.pre_failed)
                for k, h, pc in body([x != NONE], H, x):
                    if k == 'end':
                        for f in h.one:
                            if h.one[f] != H.one[f]:
                                new.add(f)
                        for f in h.many:
                            if h.many[f] != H.many[f]:
                                new.add(f)
                        if h.cont != H.cont or not h.next.eq(H.next) or h.cbase is not H.cbase:
                            new.add('lists')
                del self.pre_failed[npf:]
                if new <= mod:
                    break
                mod |= new
            cands = self.candidates(E, source, subjects, lids, mod)
            alive = list(range(len(cands)))
            zero = lambda o: z3.IntVal(0)
            alive = [i for i in alive if all(valid(base, g) == 'unsat' for g in facts_of(cands[i][1](E, zero)))]
            while True:
                H = havoc(mod)
                done = fresh_fn('done', Obj, Int)
                x = fresh(Obj, 'x')
                facts = base + [Forall(1, lambda o: And(done(o) >= 0, done(o) <= source(o))), done(x) < source(x), x != NONE]
                for i in alive:
                    facts += facts_of(cands[i][1](H, done))
                npf = len(self.pre_failed)
                outs = body(facts, H, x)
                done1 = lambda o: ite(eq(o, x), done(o) + 1, done(o))
                keep = []
                for i in alive:
                    ok = True
                    for k, h, pc in outs:
                        if k == 'end':
                            for g in facts_of(cands[i][1](h, done1)):
                                if valid(facts + pc, g) != 'unsat':
                                    ok = False
                                    break
                        if not ok:
                            break
                    if ok:
                        keep.append(i)
                if DEBUG:
                    print('dropped', node.lineno, [cands[i][0] for i in alive if i not in keep], [k for k,_,_ in outs])
                if len(keep) == len(alive):
                    break
                alive = keep
                del self.pre_failed[npf:]
            if isinstance(seq, SList):
                lid, orig = seq.lid, source
                for k, h, pc in outs:
                    if k == 'end' and valid(facts + pc, Forall(1, lambda o: h.count(lid, o) == orig(o))) != 'unsat':
                        raise Unsupported('list changed while iterated, or not provably unchanged')
            raises = [(e, pc, facts) for k, e, pc in outs if k == 'raise']
            self.memo[key] = memo = (mod, alive, [str(e.cls().__name__) for e, _, _ in raises], raises)
            self.loopinfo.append((node.lineno, [cands[i][0] for i in alive]))
        mod, alive, _, raises = memo
        cands = self.candidates(E, source, subjects, lids, mod)
        for e, pc, facts in raises:
            if outer.choose(2) == 0:
                for p in facts[len(base):] + pc:
                    outer.assume(p)
                raise e
        H = havoc(mod)
        for i in alive:
            for f in facts_of(cands[i][1](H, source)):
                outer.assume(f)
        outer.assume(Forall(1, lambda o: source(o) >= 0))
        self.heap = H.copy()
        for n in assigned | {node.target.id}:
            fr.vars[n] = Poison()
        return None

    def flatten(self, ex):
        """Name the current value of updated fields by fresh functions (definitional)."""
        h = self.heap
        for d, srt in ((h.one, Obj), (h.many, Int)):
            rd = h.rd1 if d is h.one else h.rdl
            for f in sorted(d):
                if d[f][1]:
                    g = fresh_fn(f[1], Obj, srt)
                    old = h.copy()
                    ro = old.rd1 if d is h.one else old.rdl
                    ex.assume(Forall(1, lambda a, g=g, ro=ro, f=f: g(a) == ro(f, a)))
                    for i, _ in d[f][1]:
                        ex.assume(g(i) == ro(f, i))
                    d[f] = (g, [])

    def candidates(self, E, source, subjects, lids, mod):
        """Candidate invariants (name, (heap, done) -> facts); Houdini keeps the inductive ones."""
        out = []
        add = lambda n, f: out.append((n, f))
        ones = [f for f in E.one if f in mod]
        manys = [f for f in E.many if f in mod]
        for f in ones:
            add('%s unchanged' % f[1], lambda H, d, f=f: Forall(1, lambda b: H.rd1(f, b) == E.rd1(f, b)))
            for S in subjects + [NONE]:
                add('%s = %s for done' % (f[1], S), lambda H, d, f=f, S=S: Forall(1, lambda b: H.rd1(f, b) == z3.If(d(b) > 0, S, E.rd1(f, b))))
            for S in subjects:
                add('%s only at %s' % (f[1], S), lambda H, d, f=f, S=S: Forall(1, lambda b: Or(b == S, H.rd1(f, b) == E.rd1(f, b))))
        if 'lists' in mod:
            add('next grows', lambda H, d: H.next >= E.next)
            for l in lids:
                for nm, c in VALS:
                    add('list %s %s' % (l, nm), lambda H, d, l=l, c=c: Forall(1, lambda b: H.count(l, b) == c(E.count(l, b), d(b))))
        allmany = list(E.many)
        for f in manys:
            add('%s ids unchanged' % f[1], lambda H, d, f=f: Forall(1, lambda a: H.rdl(f, a) == E.rdl(f, a)))
            add('%s ids same or fresh' % f[1], lambda H, d, f=f: Forall(1, lambda a: Or(H.rdl(f, a) == E.rdl(f, a), H.rdl(f, a) >= E.next)))
            add('%s ids below next' % f[1], lambda H, d, f=f: Forall(1, lambda a: H.rdl(f, a) < H.next))
            add('%s ids distinct' % f[1], lambda H, d, f=f: Forall(2, lambda a, b: Or(a == b, H.rdl(f, a) != H.rdl(f, b))))
            add('%s ids same unless done' % f[1], lambda H, d, f=f: Forall(1, lambda a: Or(d(a) > 0, H.rdl(f, a) == E.rdl(f, a))))
            for S in subjects:
                add('%s ids only at %s' % (f[1], S), lambda H, d, f=f, S=S: Forall(1, lambda a: Or(a == S, H.rdl(f, a) == E.rdl(f, a))))
                add('%s id at %s renewed once done' % (f[1], S), lambda H, d, f=f, S=S: Forall(1, lambda b: Or(Not(d(b) > 0), H.rdl(f, S) >= E.next)))
                add('%s id at %s unchanged' % (f[1], S), lambda H, d, f=f, S=S: H.rdl(f, S) == E.rdl(f, S))
            for g in allmany:
                if g != f:
                    add('%s and %s apart' % (f[1], g[1]), lambda H, d, f=f, g=g: Forall(2, lambda a, b: H.rdl(f, a) != H.rdl(g, b)))
            for l in lids:
                add('%s ids not %s' % (f[1], l), lambda H, d, f=f, l=l: Forall(1, lambda a: H.rdl(f, a) != l))
        if 'lists' in mod:
            for f in allmany:
                add('%s view unchanged' % f[1], lambda H, d, f=f: Forall(2, lambda a, b: H.view(f, a, b) == E.view(f, a, b)))
                for S in subjects:
                    for nm, c in VALS[1:]:
                        add('%s at %s: %s' % (f[1], S, nm), lambda H, d, f=f, S=S, c=c: Forall(2, lambda a, b:
                            H.view(f, a, b) == z3.If(a == S, c(E.view(f, a, b), d(b)), E.view(f, a, b))))
                        add('%s of %s: %s' % (f[1], S, nm), lambda H, d, f=f, S=S, c=c: Forall(2, lambda a, b:
                            H.view(f, a, b) == z3.If(b == S, c(E.view(f, a, b), d(a)), E.view(f, a, b))))
                    add('%s moved to %s' % (f[1], S), lambda H, d, f=f, S=S: Forall(2, lambda a, b:
                        H.view(f, a, b) == z3.If(d(b) > 0, z3.If(a == S, 1, 0), E.view(f, a, b))))
                add('%s cleared for done' % f[1], lambda H, d, f=f: Forall(2, lambda a, b: H.view(f, a, b) == z3.If(d(b) > 0, 0, E.view(f, a, b))))
        for nm, mk in self.ghost:
            add(nm, lambda H, d, mk=mk: mk(H))
        return out


VALS = [('unchanged', lambda c, d: c),
        ('+done', lambda c, d: c + d),
        ('-done', lambda c, d: c - d),
        ('1 if done', lambda c, d: z3.If(d > 0, 1, c)),
        ('at least 1 if done', lambda c, d: z3.If(z3.And(d > 0, c == 0), 1, c)),
        ('0 if done', lambda c, d: z3.If(d > 0, 0, c)),
        ('1 iff done', lambda c, d: z3.If(d > 0, 1, 0)),
        ]


def facts_of(f):
    return f if isinstance(f, list) else [f]


def same_heap(a, b):
    return a.one == b.one and a.many == b.many and len(a.cont) == len(b.cont) and all(x is y or (x[0].eq(y[0]) and x[1] is y[1]) for x, y in zip(a.cont, b.cont))


def field_key(m, key, attr, ref):
    """Fields are named by declaring class and attribute.  The ends of the one
    reference with alternative target classes share a field: no object is an
    instance of both alternatives."""
    if ref[3] is not None and ref[2] != '*':
        k, i = m.inverse(key, ref)
        if i is not None and i[2] == '*':
            return ('*', attr)
    return (key, attr)


_st = {}


def storages(m, key):
    """Instance attributes declared by a class that store references: attr -> ref."""
    if key not in _st:
        out = {}
        K = m.cls(key)
        for r in m.CLASSES[key]['refs']:
            a = vars(K).get(r[0])
            if isinstance(a, property):
                s = '_' + r[0]
                try:
                    for n in ast.walk(src.node_of(a.fget)):
                        if isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name):
                            s = n.value.attr
                except Exception:
                    pass
                if s not in [x[0] for x in m.CLASSES[key]['refs']]:
                    out[s] = r
                out.setdefault('_' + r[0], r)
            else:
                out[r[0]] = r
        _st[key] = out
    return _st[key]
