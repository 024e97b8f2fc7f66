"""Obligations of C01-C03: contracts of every to-one setter, to-many setter and
add/remove method, checked on the AST of the functions in /repo."""
import sys, os, time, types, inspect
import z3
from . import src
from .interp import *
from .heap import *
from .heap import check as zcheck
from .accworld import *

OTHER = ('*', 'other')       # an arbitrary list field of the rest of the heap


def storage_of(m, key, ref):
    """Attribute name under which the instances keep the reference."""
    for a, r in storages(m, key).items():
        if r is ref:
            return a
    return ref[0]


class Run:
    """All paths of one operation on one association, and the goals on them."""

    def __init__(s, m, key, ref, op, contracts=()):
        s.m, s.key, s.ref, s.op = m, key, ref, op
        s.name, s.many, s.target, s.inv = ref
        s.kind = m.kind(key, ref)
        s.F = field_key(m, key, storage_of(m, key, ref), ref)
        s.I = None
        if s.inv is not None:
            s.tkey, s.iref = m.inverse(key, ref)
            s.I = field_key(m, s.tkey, storage_of(m, s.tkey, s.iref), s.iref)
            s.imany = s.iref[1]
        s.vkey = s.target
        s.w = AccWorld(m)
        s.obs = {}          # name -> [status, time, detail]
        s.reg(s.F, s.many)
        if s.I:
            s.reg(s.I, s.imany)
        s.reg(OTHER, True)
        for c in contracts:
            s.w.contracts[c.setter()] = c.contract(s.w)

    def setter(s):
        p = inspect.getattr_static(s.m.cls(s.key), s.name)
        return p.fset if isinstance(p, property) else None

    def reg(s, f, many):
        if f not in s.w.bases:
            try:
                s.w.field(f, many)
            except Restart:
                pass

    # ---------------------------------------------------------- initial state
    def initial(s):
        w = s.w
        h = Heap()
        for f, fn in w.bases.items():
            (h.many if w.fieldinfo[f] else h.one)[f] = (fn, [])
        h.cbase = s.cnt0
        h.next = s.next0
        return h

    def invariant(s, h):
        """Invariant of the association in heap h."""
        F, I = s.F, s.I
        if s.kind == 'n1':
            return [Forall(2, lambda a, b: Or(a == NONE, h.view(I, a, b) == z3.If(z3.And(b != NONE, h.rd1(F, b) == a), 1, 0)), 'both ends agree')]
        if s.kind == '1n':
            return [Forall(2, lambda a, b: Or(a == NONE, h.view(F, a, b) == z3.If(z3.And(b != NONE, h.rd1(I, b) == a), 1, 0)), 'both ends agree')]
        if s.kind == 'nn':
            return [Forall(2, lambda a, b: Or(a == NONE, b == NONE, h.view(F, a, b) == h.view(I, b, a)), 'both ends agree'),
                    Forall(2, lambda a, b: Or(a == NONE, z3.And(h.view(F, a, b) >= 0, h.view(F, a, b) <= z3.If(b == NONE, 0, 1))), 'listed at most once'),
                    Forall(2, lambda a, b: Or(a == NONE, z3.And(h.view(I, a, b) >= 0, h.view(I, a, b) <= z3.If(b == NONE, 0, 1))), 'listed at most once by the inverse')]
        if s.kind == '11':
            return [Forall(1, lambda a: Or(a == NONE, h.rd1(F, a) == NONE, h.rd1(I, h.rd1(F, a)) == a), 'the inverse of what a holder refers to is the holder'),
                    Forall(1, lambda b: Or(b == NONE, h.rd1(I, b) == NONE, h.rd1(F, h.rd1(I, b)) == b), 'the holder a target refers to refers to the target')]
        if s.kind == 'um':
            return [Forall(2, lambda a, b: Or(a == NONE, z3.And(h.view(F, a, b) >= 0, h.view(F, a, b) <= z3.If(b == NONE, 0, 1))), 'listed at most once')]
        return []

    def wf(s, h):
        out = []
        owner, tag = s.owner, s.tag
        for k, f in enumerate(sorted(h.many)):
            out.append(Forall(1, lambda a, f=f, k=k: z3.And(owner(h.rdl(f, a)) == a, tag(h.rdl(f, a)) == k, h.rdl(f, a) >= 0, h.rdl(f, a) < h.next)))
        return out

    def run(s):
        while True:
            try:
                s.obs = {}
                s.cnt0 = z3.Function('cnt0', Int, Obj, Int)
                s.next0 = z3.Const('next0', Int)
                s.owner = z3.Function('owner', Int, Obj)
                s.tag = z3.Function('tag', Int, Int)
                cases = ['object'] if s.op == 'set1' else ['arguments'] if s.op in ('add', 'remove') else ['a list', 'the list of a holder', 'a tuple']
                if s.op == 'setn' and s.kind == 'nn':
                    cases.append('the list of a member')
                s.w.pre_failed = []
                for c in cases:
                    s.case(c)
                return s.obs
            except Restart:
                continue

    def case(s, case):
        w, m = s.w, s.m
        w.memo.clear()
        self_, val = z3.Const('self', Obj), z3.Const('value', Obj)
        h0 = s.initial()
        w.heap = h0
        w.subjects, w.lids = [self_], []
        w.ghost = [('invariant: ' + g.name, lambda H, i=i: s.invariant(H)[i]) for i, g in enumerate(s.invariant(h0))]
        hyps = s.wf(h0) + s.invariant(h0) + [self_ != NONE, s.next0 >= 0]
        K = m.cls(s.key)
        sobj = SObj(w, self_, s.key)
        lid = src_ = None
        if s.op == 'set1':
            v = SObj(w, val, s.vkey)
            w.subjects = [self_, val]
            s.lany = z3.Const('some.list', Int)
            hyps += [s.lany >= 0, s.lany < s.next0, s.tag(s.lany) == -2]
        elif case == 'a list':
            lid = z3.Const('value.id', Int)
            hyps += [lid >= 0, lid < s.next0, s.tag(lid) == -1]
            v = SList(w, lid, s.vkey)
            src_ = h0.content(lid)
        elif case.startswith('the list of'):
            g = z3.Const('holder', Obj)
            f = s.F if 'holder' in case else s.I
            lid = h0.rdl(f, g)
            hyps += [g != NONE]
            v = SList(w, lid, s.vkey)
            src_ = h0.content(lid)
            w.subjects = [self_, g]
        else:
            given = z3.Function('given', Obj, Int)
            src_ = lambda o: given(o)
            v = SSeq(w, src_, s.vkey)
        if lid is not None:
            w.lids = [lid]
        if src_ is not None:
            hyps += [Forall(1, lambda o: src_(o) >= 0), src_(NONE) == 0]
            if s.op == 'remove':
                if s.kind == '1n':
                    hyps.append(Forall(1, lambda o: z3.And(src_(o) <= 1, z3.Implies(src_(o) > 0, h0.rd1(s.I, o) == self_))))
                else:
                    hyps.append(Forall(1, lambda o: z3.And(src_(o) <= 1, z3.Implies(src_(o) > 0, h0.view(s.F, self_, o) > 0))))
        if zcheck(hyps) == 'unsat':
            s.note('precondition satisfiable (%s)' % case, 'failed', 0, 'vacuous precondition')
        else:
            s.note('precondition satisfiable (%s)' % case, 'proved', 0)
        if s.op in ('set1', 'setn'):
            prop = inspect.getattr_static(K, s.name)
            args = [sobj, v]
            fn = prop.fset if isinstance(prop, property) else None
        else:
            fn = inspect.getattr_static(K, s.op + s.name)
            args = [sobj, Star(v)]
        ip = Interp(None, w)

        def thunk(ex):
            ip.ex, ip.depth = ex, 0
            w.heap = h0.copy()
            for x in hyps:
                ex.assume(x)
            try:
                if fn is None:
                    w.write(ip, sobj, s.name, v)
                else:
                    w.inlined.add(fn)
                    ip.call_real(fn, args, {})
            except PyRaise as e:
                return ('raise', e, w.heap, list(ex.pc))
            return ('ret', None, w.heap, list(ex.pc))
        ex = Explorer(lambda pc: zcheck(pc) != 'unsat', 400)
        outs = []
        for o in ex.run(thunk):
            outs.append(o)
        s.note('no exception', 'proved', 0)
        if not any(o[0] == 'ret' for o in outs):
            s.note('some path returns (%s)' % case, 'failed', 0, 'no path returns')
        if w.pre_failed:
            s.note('preconditions of called contracts', 'failed', 0, '; '.join(w.pre_failed[:3]))
        elif w.used_contracts:
            s.note('preconditions of called contracts', 'proved', 0)
        for kind, e, h, pc in outs:
            if kind == 'raise':
                s.note('no exception', 'failed', 0, '%s (%s)' % (e, case))
                continue
            if zcheck(pc) == 'unsat':
                s.note('path conditions are consistent', 'failed', 0, case)
                continue
            s.note('path conditions are consistent', 'proved', 0)
            for nm, g in s.goals(case, h0, h, self_, val, src_, lid):
                t = time.time()
                r = valid(pc, g)
                s.note(nm, 'proved' if r == 'unsat' else 'failed', time.time() - t, case)

    # ---------------------------------------------------------- contract of a to-one setter
    def transform(s, h, self_, val):
        """The strong contract of a many-to-one setter as a heap transformer: drop
        self from the old target by giving that target a fresh list, set, and append
        to the new target's list if absent."""
        F, I = s.F, s.I
        old = h.rd1(F, self_)
        c0 = h.content(h.rdl(I, old))
        nid = h.next
        h.next = nid + 1
        h.setc(nid, lambda o: ite(eq(o, self_), z3.IntVal(0), c0(o)))
        before = h.rdl(I, old)
        h.wrl(I, old, ite(eq(old, NONE), before, nid))
        h.wr1(F, self_, val)
        lid = h.rdl(I, val)
        c1 = h.content(lid)
        h.setc(lid, lambda o: ite(And(eq(o, self_), Not(eq(val, NONE)), c1(o) == 0), z3.IntVal(1), c1(o)))

    def contract(s, w):
        """The contract as applied at a call site in world w: check the
        precondition, then transform."""
        def apply(ip, args):
            self_, v = args
            if not isinstance(self_, SObj) or not (v is None or isinstance(v, SObj)):
                return NotImplemented
            h = w.heap
            for f, many in ((s.F, False), (s.I, True)):
                w.field(f, many) if f not in w.bases else None
            w.touched |= {s.F, s.I}
            snap = h.copy()
            for g in s.invariant(snap):
                if valid(w.facts + ip.ex.pc, g) != 'unsat':
                    w.pre_failed.append('%s.%s: %s' % (s.key, s.name, g.name))
            for nm, g in s.separate(snap, [s.I], lambda f: f in snap.many):
                if valid(w.facts + ip.ex.pc, g) != 'unsat':
                    w.pre_failed.append('%s.%s: %s' % (s.key, s.name, nm))
            s.transform(h, self_.t, NONE if v is None else v.t)
        return apply

    def strong(s, h0, h, self_, val, lany):
        T = h0.copy()
        s.transform(T, self_, val)
        F, I = s.F, s.I
        old = h0.rd1(F, self_)
        return [('contract: the other target lists keep their identity', Forall(1, lambda a: Or(a == NONE, a == old, h.rdl(I, a) == h0.rdl(I, a)))),
                ('contract: the old target gets a fresh list', Or(old == NONE, h.rdl(I, old) >= h0.next)),
                ('contract: existing lists change as specified', Forall(2, lambda a, b: Or(a == NONE, h.count(h0.rdl(I, a), b) == T.count(h0.rdl(I, a), b)))),
                ('contract: detached and foreign lists are not changed', Forall(1, lambda b: h.count(lany, b) == h0.count(lany, b))),
                ('contract: allocation only grows', h.next >= h0.next)]

    def separate(s, h, manys, known):
        nz = lambda o: o == NONE
        out = []
        for f in manys:
            out.append(('no list is shared by two holders', Forall(2, lambda a, b, f=f: Or(nz(a), nz(b), a == b, h.rdl(f, a) != h.rdl(f, b)))))
            if OTHER in h.many:
                out.append(('no list is shared with another reference', Forall(2, lambda a, b, f=f: Or(nz(a), nz(b), h.rdl(f, a) != h.rdl(OTHER, b)))))
            for f2 in manys:
                if f2 > f:
                    out.append(('no list is shared with another reference', Forall(2, lambda a, b, f=f, f2=f2: Or(nz(a), nz(b), h.rdl(f, a) != h.rdl(f2, b)))))
            out.append(('list identities exist', Forall(1, lambda a, f=f: Or(nz(a), z3.And(h.rdl(f, a) >= 0, h.rdl(f, a) < h.next)))))
        return out

    def note(s, name, status, t, detail=''):
        o = s.obs.setdefault(name, ['proved', 0.0, ''])
        o[1] += t
        if status == 'failed' or status == 'other' and o[0] == 'proved':
            o[0] = status
        if status != 'proved' and detail and detail not in o[2]:
            o[2] += ('; ' if o[2] else '') + detail

    # ---------------------------------------------------------- goals
    def goals(s, case, h0, h, self_, val, src_, lid):
        F, I, out = s.F, s.I, []
        for g in s.invariant(h):
            out.append(('invariant: ' + g.name, g))
        nz = lambda o: o == NONE
        if s.op == 'set1':
            if s.kind == '11':
                out.append(('post: exactly the assigned link', Forall(1, lambda b: Or(nz(b), h.rd1(F, b) == z3.If(b == self_, val,
                            z3.If(z3.And(val != NONE, h0.rd1(F, b) == val), NONE, h0.rd1(F, b)))))))
            else:
                out.append(('post: exactly the assigned link', Forall(1, lambda b: Or(nz(b), h.rd1(F, b) == z3.If(b == self_, val, h0.rd1(F, b))))))
        else:
            many = s.op in ('setn', 'add')
            if s.kind == '1n':
                exp = {'setn': lambda b: z3.If(src_(b) > 0, self_, z3.If(h0.rd1(I, b) == self_, NONE, h0.rd1(I, b))),
                       'add': lambda b: z3.If(src_(b) > 0, self_, h0.rd1(I, b)),
                       'remove': lambda b: z3.If(src_(b) > 0, NONE, h0.rd1(I, b))}[s.op]
                out.append(('post: exactly the given links', Forall(1, lambda b: Or(nz(b), h.rd1(I, b) == exp(b)))))
            else:
                exp = {'setn': lambda b, c: z3.If(src_(b) > 0, 1, 0),
                       'add': lambda b, c: z3.If(src_(b) > 0, 1, c),
                       'remove': lambda b, c: z3.If(src_(b) > 0, 0, c)}[s.op]
                out.append(('post: exactly the given links', Forall(2, lambda a, b: Or(nz(a), nz(b),
                            h.view(F, a, b) == z3.If(a == self_, exp(b, h0.view(F, a, b)), h0.view(F, a, b))))))
        manys = [f for f in (F, I) if f in h.many]
        for nm, g in s.separate(h, manys, None):
            out.append(('frame: ' + nm, g))
        for f in manys:
            if case == 'a list':
                out.append(('frame: the given list is not kept', Forall(1, lambda a, f=f: Or(nz(a), h.rdl(f, a) != lid))))
        if case == 'a list':
            out.append(('frame: the given list is not changed', Forall(1, lambda b: h.count(lid, b) == h0.count(lid, b))))
        out.append(('frame: lists of other references unchanged', Forall(2, lambda a, b: Or(nz(a), h.view(OTHER, a, b) == h0.view(OTHER, a, b)))))
        if s.op == 'set1' and s.kind == 'n1':
            out += s.strong(h0, h, self_, val, s.lany)
        for f in h.one:
            if f not in (F, I):
                out.append(('frame: %s unchanged' % f[1], Forall(1, lambda b, f=f: Or(nz(b), h.rd1(f, b) == h0.rd1(f, b)))))
        for f in h.many:
            if f not in (F, I, OTHER):
                out.append(('frame: %s unchanged' % f[1], Forall(1, lambda b, f=f: Or(nz(b), h.rdl(f, b) == h0.rdl(f, b)))))
                out.append(('frame: %s unchanged' % f[1], Forall(2, lambda a, b, f=f: Or(nz(a), h.view(f, a, b) == h0.view(f, a, b)))))
        return out
