"""C15: the impedance of a CIM15 line segment and its views.  State: one field
(what PerLengthImpedance stores); the views are contracts over that field."""
import time, inspect
import z3
from . import src, heap
from .interp import *
from .heap import *
from .heap import check as zcheck
from .accworld import *
from .accprove import Run, storage_of, valid


class ViewRun(Run):
    """Setter of a view: the contract of a many-to-one reference on the one field."""

    def __init__(s, m, name):
        key, ref = m.find_ref(m.SEGMENT, 'PerLengthImpedance')
        super().__init__(m, key, ref, 'set1')
        s.name = name
        # what may be assigned: any impedance, the narrower views are given either kind as well
        s.vkey = '*'

    def getter(s, kinds):
        """Obligations of the getter of view s.name; kinds: classes it shows (None: all)."""
        m, w = s.m, s.w
        while True:
            try:
                return s._getter(kinds)
            except Restart:
                continue

    def _getter(s, kinds):
        m, w = s.m, s.w
        s.obs = {}
        s.cnt0 = z3.Function('cnt0', Int, Obj, Int)
        s.next0 = z3.Const('next0', Int)
        s.owner, s.tag = z3.Function('owner', Int, Obj), z3.Function('tag', Int, Int)
        self_ = z3.Const('self', Obj)
        w.memo.clear()
        h0 = s.initial()
        w.heap, w.subjects, w.lids = h0, [self_], []
        w.ghost = []
        held = h0.rd1(s.F, self_)
        cl = lambda k: w.classof(held) == w.classid(m.cls(k))
        tks = m.targets('*')
        hyps = s.wf(h0) + s.invariant(h0) + [self_ != NONE, s.next0 >= 0, Or(held == NONE, *[cl(k) for k in tks])]
        hyps.append(z3.And(*[w.classof(NONE) != w.classid(m.cls(k)) for k in tks]))
        p = inspect.getattr_static(m.cls(s.key), s.name)
        ip = Interp(None, w)

        def thunk(ex):
            ip.ex, ip.depth = ex, 0
            w.heap = h0.copy()
            for x in hyps:
                ex.assume(x)
            try:
                r = ip.call(p.fget, [SObj(w, self_, s.key)], {})
            except PyRaise as e:
                return ('raise', e, w.heap, list(ex.pc))
            return ('ret', r, w.heap, list(ex.pc))
        ex = Explorer(lambda pc: zcheck(pc) != 'unsat', 200)
        want = held if kinds is None else z3.If(z3.And(held != NONE, z3.Or(*[cl(k) for k in kinds])), held, NONE)
        seen = set()
        for kind, r, h, pc in list(ex.run(thunk)):
            if zcheck(pc) == 'unsat':
                continue
            t = time.time()
            if kind == 'raise':
                s.note('no exception', 'failed', 0, str(r))
                continue
            seen.add(r is None)
            if not (r is None or isinstance(r, SObj)):
                raise Unsupported('the getter returns %r' % (r,))
            g = want == (NONE if r is None else r.t)
            s.note('shows exactly the impedance held, when it is of the kind of the view', 'proved' if zcheck(pc + [z3.Not(g)]) == 'unsat' else 'failed', time.time() - t)
            same = [Forall(1, lambda b, f=f: Or(b == NONE, h.rd1(f, b) == h0.rd1(f, b))) for f in h.one]
            same += [Forall(2, lambda a, b, f=f: Or(a == NONE, h.view(f, a, b) == h0.view(f, a, b))) for f in h.many]
            ok = all(valid(pc, x) == 'unsat' for x in same)
            s.note('changes nothing', 'proved' if ok else 'failed', time.time() - t)
        if not seen:
            s.note('returns', 'failed', 0, 'no path returns')
        else:
            s.note('no exception', 'proved', 0)
        return s.obs


def job(j):
    import model as m
    from . import accessors as A
    tks = m.targets('*')
    kinds = dict(PerLengthImpedance=None, SequenceImpedance=[tks[0]], PhaseImpedance=[tks[1]])
    q0, s0 = heap.STATS['queries'], heap.STATS['time']
    if j[0] in ('get', 'set'):
        what, name = j
        fn = '%s.%s%s' % (m.SEGMENT, what, name)
        w = m.SEGMENT
        try:
            p = inspect.getattr_static(m.cls(m.SEGMENT), name)
            w = src.where(p.fget if what == 'get' else p.fset)
            r = ViewRun(m, name)
            obs = r.getter(kinds[name]) if what == 'get' else r.run()
        except Unsupported as e:
            obs = {'within the verifier\'s subset': ['other', 0.0, str(e)]}
        except Exception as e:
            import traceback
            obs = {'verifier': ['other', 0.0, traceback.format_exc()[-800:]]}
    else:
        k, op = j
        obs = A.prove_one((k, 'LineSegments', op, []))['obs']
        fn = '%s.%sLineSegments' % (k, 'set' if op == 'setn' else op)
        w = A.where(k, 'LineSegments', op)
    return fn, w, obs, heap.STATS['queries'] - q0, heap.STATS['time'] - s0


def prove():
    """[(function, where, obligations, queries, solver time)]"""
    import model as m
    from . import accessors as A
    jobs = [(k, op) for op in ('setn', 'add', 'remove') for k in m.targets('*')]
    jobs += [(w, n) for w in ('set', 'get') for n in ('PerLengthImpedance', 'SequenceImpedance', 'PhaseImpedance')]
    with A.pool() as p:
        return p.map(job, jobs, 1)
