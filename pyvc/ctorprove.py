"""Proof of the constructor contracts (C04)."""
import time, os
from .interp import Explorer, Unsupported, PyRaise, PathEnd
from .ctorworld import *
from . import ctorworld as W
from .accworld import storages
from . import src


class Bad(Exception):
    def __init__(s, ob, detail): s.ob, s.detail = ob, detail


def classes(m):
    keys = {}
    for k in m.CLASSES:
        try:
            keys.setdefault(m.cls(k), k)
        except Exception:
            pass
    return keys


def value(v, a):
    while isinstance(v, Ite):
        for g, x in v.cases:
            if holds(g, a):
                v = x
                break
        else:
            raise Unsupported('no case applies')
    if isinstance(v, PV) and a[v.p] == 'none':
        return None
    return v


def vsupport(v, out):
    if isinstance(v, Ite):
        for g, x in v.cases:
            support(g, out)
            vsupport(x, out)
    elif isinstance(v, PV):
        out.add(v.p)
    return out


def show(a, n):
    return ', '.join('%s %s' % (p, 'not given' if s == 'absent' else 'is None' if s == 'none' else s) for p, s in sorted(a.items()) if s != 'absent' or p == n)


def same(x, d):
    return type(x) is type(d) and repr(x) == repr(d)


def known_default(m, k, n):
    return [k, n] in m.KNOWN.get('types', [])


def store_names(m, key):
    """storage attribute -> reference name, over the inheritance chain; the
    attribute the getter reads."""
    out = {}
    for k in reversed(m.mro(key)):
        st = storages(m, k)
        by = {}
        for a, r in st.items():
            by.setdefault(r[0], []).append(a)
        for n, as_ in by.items():
            if len(as_) > 1:
                as_ = [a for a in as_ if a != '_' + n] or as_
            out[as_[0]] = n
    for n in m.views(key):
        out = {a: x for a, x in out.items() if x != n}
    if m.views(key):
        out['_PerLengthImpedance'] = 'PerLengthImpedance'
    return out


def check_class(m, key, keys, only_views=False):
    """[(obligation, count, status, detail)]"""
    K = m.cls(key)
    obs = {}
    und = []
    views = m.views(key)
    names = store_names(m, key)
    t0 = time.time()
    ex = Explorer(lambda pc: True, limit=3000)
    reached = [0]

    def fail(ob, detail):
        obs.setdefault(ob, detail)

    def thunk(ex):
        w = CtorWorld(m, key, K)
        w.keys = keys
        ip = CtorInterp(ex, w)
        if K.__new__ is not object.__new__ or type(K) is not type:
            raise Unsupported('__new__ or a metaclass')
        items = {}
        for n in list(w.attrs) + list(w.refs):
            kind = 'attr' if n in w.attrs else 'many' if w.refs[n][1][1] else 'one'
            items[n] = (NOT(('atom', n, frozenset(['absent']))), PV(n, kind))
        if w.owner is object:
            fn = None
            w.base_init(ip, object, [], {'**': KwDict(items)})
        else:
            fn = w.owner.__dict__['__init__']
            w.entered = True
        try:
            if fn is not None:
                ip.call_real(fn, [w.self], {'**': KwDict(items)})
        except PyRaise as e:
            if not w.sat(w.path):
                return
            if e.cls() is ValueError and views:
                for a in w.assignments(w.path, extra=views):
                    if holds(w.path, a) and sum(a[v] == 'object' for v in views) < 2:
                        fail('raises only for more than one impedance model', show(a, ''))
                        return
                obs_reached.add('too many models')
                return
            a = next(a for a in w.assignments(w.path) if holds(w.path, a))
            fail('never fails', '%s when %s' % (e, show(a, '') or 'no keyword is given'))
            return
        if not w.sat(w.path):
            return
        reached[0] += 1
        # attributes
        for n, (dk, at) in w.attrs.items():
            try:
                c = w.class_attr(K, n)
                v = ip.getattr(w.self, n) if isinstance(c, property) else w.field(n)
            except Unsupported as e:
                und.append('%s: %s' % (n, e))
                continue
            if v is None and not any(k == 'store' and x == n for g, k, x, _ in w.events):
                fail('attribute %s' % n, 'is never set')
                continue
            for a in w.assignments(w.path, *[g for g in gsof(v)], extra={n} | vsupport(v, set())):
                if not holds(w.path, a):
                    continue
                got = value(v, a)
                if a[n] == 'absent':
                    ok = isinstance(got, Default) and got.n == n and same(m.all_attrs(got.key)[n][1][2], at[2]) or \
                        not isinstance(got, Sym) and (same(got, at[2]) or known_default(m, dk, n) and got == '')
                    want = 'the default %r' % (at[2],)
                elif a[n] == 'none':
                    ok, want = got is None, 'None'
                elif a[n] == 'falsy' and not isinstance(got, Sym):
                    # the only false value of the declared type equals it
                    ok, want = type(got).__name__ == at[1] and not got, 'the value given'
                else:
                    ok, want = isinstance(got, PV) and got.p == n and type(got) is PV, 'the value given'
                if not ok:
                    fail('attribute %s' % n, 'is %r, expected %s, when %s' % (got, want, show(a, n)))
                    break
        # references
        lists = {}
        for i, (g, k, n, v) in enumerate(w.events):
            if k == 'store':
                later = OR(*[h for h, kk, x, _ in w.events[i + 1:] if kk == 'store' and x == n])
                for h, x in split(v):
                    if isinstance(x, list):
                        gg = AND(g, h, NOT(later))
                        for hh, nn in lists.setdefault(id(x), []):
                            if w.sat(AND(w.path, gg, hh)):
                                fail('lists are not shared', '%s and %s hold one list' % (n, nn))
                        lists[id(x)].append((gg, n))
                if n not in names and n not in w.attrs and n not in w.refs and w.class_attr(K, n) is not None:
                    fail('only its own fields are written', 'the class member %s is hidden' % n)
        inv = {}
        for a, n in names.items():
            inv[n] = a
        for n, (dk, r) in w.refs.items():
            if m.clash(key, n) or n in views:
                continue
            ev = [(g, k, v) for g, k, x, v in w.events if k in ('set', 'add', 'base-create', 'base-set') and x == n or k == 'store' and x in (inv.get(n), n if not isinstance(w.class_attr(K, n), property) else None)]
            check_ref(w, m, key, n, r, ev, fail)
        if views:
            ev = [(g, k, v, x) for g, k, x, v in w.events if k in ('set', 'add', 'base-create', 'base-set') and x in views or k == 'store' and x == '_PerLengthImpedance']
            check_views(w, m, key, views, ev, fail)
            obs_reached.add('returns')

    obs_reached = set()

    def guarded(ex):
        try:
            thunk(ex)
        except Unsupported as e:
            und.append(str(e))

    try:
        for _ in ex.run(guarded):
            if time.time() - t0 > 60:
                raise Unsupported('time limit')
    except Unsupported as e:
        und.append(str(e))
    except RecursionError:
        und.append('recursion')
    attrs, refs = m.all_attrs(key), m.all_refs(key)
    return dict(key=key, fails=obs, und=und, paths=ex.paths, reached=reached[0], attrs=len(attrs),
                refs=len([n for n in refs if not m.clash(key, n)]), extra=sorted(obs_reached), time=time.time() - t0)


def gsof(v):
    return [g for g, x in v.cases] if isinstance(v, Ite) else []


def check_ref(w, m, key, n, r, ev, fail):
    many = r[1]
    kind = m.kind(key, r)
    gs = [g for g, k, v in ev]
    sup = {n}
    for g, k, v in ev:
        vsupport(v, sup)
    for a in w.assignments(w.path, *gs, extra=sup):
        if not holds(w.path, a):
            continue
        st = None                                     # None: no storage, 'empty', or the value linked
        for g, k, v in ev:
            if not holds(g, a):
                continue
            v = value(v, a) if k != 'base-create' else None
            if k == 'base-create':
                st = 'empty'
            elif k == 'store':
                if v is None and not many or many and isinstance(v, list) and not v:
                    if many and not any(v is x for x in w.own_lists):
                        return fail('reference %s' % n, 'its list is shared between instances')
                    if st not in (None, 'empty'):
                        return fail('reference %s' % n, 'is emptied after it was assigned, when %s' % show(a, n))
                    st = 'empty'
                elif kind == 'u1' and isinstance(v, PV):
                    st = v
                elif kind == 'um' and isinstance(v, Copy):
                    st = 'empty' if a[v.p] == 'empty' else v       # no inverse: a fresh list of the members given
                else:
                    return fail('reference %s' % n, '%r is stored without being linked, when %s' % (v, show(a, n)))
            else:
                if st is None:
                    return fail('reference %s' % n, 'is assigned before its storage exists, when %s' % show(a, n))
                if many and v is None and k != 'base-set':
                    return fail('reference %s' % n, 'the list assigned is None, when %s' % show(a, n))
                if v is None or many and isinstance(v, (list, tuple)) and not v or many and isinstance(v, PV) and a[v.p] == 'empty':
                    st = 'empty' if k != 'add' else st
                elif isinstance(v, PV):
                    if many and v.kind != 'many':
                        return fail('reference %s' % n, 'is assigned %r, when %s' % (v, show(a, n)))
                    st = v
                else:
                    return fail('reference %s' % n, 'is assigned %r, when %s' % (v, show(a, n)))
        want = n if a[n] in ('object', 'items') else None
        if st is None:
            return fail('reference %s' % n, 'does not exist, when %s' % show(a, n))
        if (st.p if isinstance(st, PV) else None) != want:
            return fail('reference %s' % n, 'is %s, expected %s, when %s' % (st, 'the value given' if want else 'empty', show(a, n)))


def check_views(w, m, key, views, ev, fail):
    gs = [g for g, k, v, x in ev]
    sup = set(views)
    for g, k, v, x in ev:
        vsupport(v, sup)
    for a in w.assignments(w.path, *gs, extra=sup):
        if not holds(w.path, a):
            continue
        given = [x for x in views if a[x] == 'object']
        if len(given) > 1:
            return fail('raises for more than one impedance model', 'it does not when %s' % show(a, ''))
        held = '?'
        for g, k, v, x in ev:
            if not holds(g, a):
                continue
            v = value(v, a) if k != 'base-create' else None
            if k == 'base-create' or k == 'store' and v is None:
                if held not in ('?', None):
                    return fail('the impedance model given is held', 'it is dropped when %s' % show(a, ''))
                held = None
            elif k == 'store':
                return fail('the impedance model given is held', 'stored without being linked, when %s' % show(a, ''))
            else:
                if held == '?':
                    return fail('the impedance model given is held', 'assigned before the storage exists, when %s' % show(a, ''))
                if v is None:
                    held = None
                elif isinstance(v, PV) and v.kind == 'one' and (x == v.p or x == 'PerLengthImpedance'):
                    held = v.p
                else:
                    return fail('the impedance model given is held', '%s is assigned %r, when %s' % (x, v, show(a, '')))
        if held != (given[0] if given else None):
            return fail('the impedance model given is held', 'held: %s, given: %s' % (held, given))


def job(a):
    import model as m
    keys = classes(m)
    out = []
    for k in a:
        try:
            out.append(check_class(m, k, keys))
        except Exception as e:
            import traceback
            out.append(dict(key=k, fails={}, und=[traceback.format_exc()[-800:]], paths=0, reached=0, attrs=0, refs=0, extra=[], time=0))
    return out


def prove(only=None):
    import model as m, multiprocessing as mp
    ks = sorted(only or m.CLASSES)
    chunks = [ks[i::64] for i in range(64)]
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 4)) as p:
        return [r for c in p.map(job, [c for c in chunks if c], chunksize=1) for r in c]


if __name__ == '__main__':
    import sys
    t = time.time()
    rs = prove(sys.argv[1:])
    n = 0
    for r in rs:
        if r['fails'] or r['und']:
            n += 1
            if n < 15:
                print(r['key'], r['fails'], r['und'][:3])
    print(len(rs), n, sum(r['paths'] for r in rs), sum(r['attrs'] for r in rs), sum(r['refs'] for r in rs), time.time() - t)
