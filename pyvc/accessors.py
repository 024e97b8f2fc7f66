"""C01-C03: which functions carry which contract, sharing of proofs between
associations whose code is the same up to the names of the association's ends,
and the ground obligations on class resolution."""
import ast, inspect, os, sys, time, types, copy, builtins, multiprocessing
from . import src
from .interp import Unsupported
from . import accprove, heap
from .accworld import storages
import model as m

OPS = {'C01': [('n1', 'set1'), ('11', 'set1'), ('u1', 'set1')],
       'C02': [('1n', 'add'), ('nn', 'add'), ('um', 'add'), ('1n', 'remove'), ('nn', 'remove'), ('um', 'remove')],
       'C03': [('1n', 'setn'), ('nn', 'setn')]}


class Rename(ast.NodeTransformer):
    def __init__(s, d):
        s.d = d

    def visit_Name(s, n):
        n.id = s.d.get(n.id, n.id)
        return n

    def visit_Attribute(s, n):
        s.generic_visit(n)
        n.attr = s.d.get(n.attr, n.attr)
        return n

    def visit_arg(s, n):
        n.arg = s.d.get(n.arg, n.arg)
        n.annotation = None
        return n


def entry(key, name, op):
    """The function an operation runs, or None for a plain attribute."""
    K = m.cls(key)
    if op in ('set1', 'setn'):
        p = inspect.getattr_static(K, name)
        return p.fset if isinstance(p, property) else None
    f = inspect.getattr_static(K, op + name)
    return f


def shape(key, ref, op):
    """Everything the proof of an operation depends on, with the names of the
    two ends of the association replaced by placeholders."""
    name, many, target, inv = ref
    tks = m.targets(target)
    ren = {}
    ends = [(key, ref, '§R')]
    if inv is not None:
        tk, ir = m.inverse(key, ref)
        ends.append((tk, ir, '§I'))
    for k, r, p in ends:
        for pre in ('', '_', 'get', 'set', 'add', 'remove'):
            ren.setdefault(pre + r[0], pre + p)
        for st, rr in storages(m, k).items():
            if rr is r:
                ren.setdefault(st, '_' + p)
    owners = [(k, m.cls(k)) for k, r, p in ends]
    if inv is None:
        owners.append((tks[0], m.cls(tks[0])))
    parts, todo, seen = [], [], {}

    def label(f):
        if f not in seen:
            seen[f] = 'F%d' % len(seen)
            todo.append(f)
        return seen[f]

    def resolve(attr):
        out = []
        for i, (k, K) in enumerate(owners):
            try:
                a = inspect.getattr_static(K, attr)
            except AttributeError:
                st = None
                for mk in m.mro(k):
                    s = storages(m, mk)
                    if attr in s:
                        st = s[attr]
                        break
                if st is not None:
                    e = [p for kk, r, p in ends if r is st]
                    out.append('%d:storage %s' % (i, e[0] if e else '%s.%s' % (mk, attr)))
                continue
            if isinstance(a, property):
                out.append('%d:property %s %s' % (i, label(a.fget) if a.fget else None, label(a.fset) if a.fset else None))
            elif isinstance(a, types.FunctionType):
                out.append('%d:function %s' % (i, label(a)))
            else:
                out.append('%d:%s %r' % (i, type(a).__name__, a))
        return out
    f = entry(key, name, op)
    head = [m.kind(key, ref), op, [(r[1], k in m.mro(k2)) for k, r, p in ends for k2, _, _ in ends], f is None,
            ['%s' % sorted((('_' + p) if True else st) for st, rr in storages(m, k).items() if rr is r) for k, r, p in ends]]
    if f is not None:
        label(f)
    while todo:
        f = todo.pop(0)
        if not src.in_repo(f):
            parts.append((seen[f], repr(f)))
            continue
        node = src.node_of(f)
        new = copy.deepcopy(node)
        new.body = src.body_of(new) or [ast.Pass()]
        new.name = ''
        new.decorator_list = [] if not new.decorator_list else new.decorator_list
        names = sorted({n.attr for n in ast.walk(new) if isinstance(n, ast.Attribute)})
        locs = {n.id for n in ast.walk(new) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in ast.walk(new) if isinstance(a, ast.arg)}
        free = sorted({n.id for n in ast.walk(new) if isinstance(n, ast.Name)} - locs)
        res = {}
        for a in names:
            x = resolve(a)
            if x:
                res[ren.get(a, a)] = x
        for a in free:
            g = f.__globals__.get(a, getattr(builtins, a, '<undefined>'))
            if isinstance(g, types.FunctionType):
                res['global ' + ren.get(a, a)] = label(g)
            else:
                res['global ' + ren.get(a, a)] = getattr(g, '__module__', '') + ':' + getattr(g, '__qualname__', str(type(g)))
        for x in ast.walk(new):
            if isinstance(x, ast.arguments):
                pass
        txt = ast.dump(Rename(ren).visit(new))
        parts.append((seen[f], txt, f.__defaults__, sorted(res.items())))
    return repr((head, parts))


def prove_one(job):
    """Prove one operation; returns (obligations, details)."""
    key, name, op, contracts = job
    k, ref = m.find_ref(key, name)
    t0 = time.time()
    q0, s0 = heap.STATS['queries'], heap.STATS['time']
    try:
        def attempt(cs):
            r = accprove.Run(m, k, ref, op, [accprove.Run(m, a, m.find_ref(a, b)[1], 'set1') for a, b in cs])
            obs = r.run()
            return r, obs
        r, obs = attempt(contracts)
        if contracts and any(o[0] != 'proved' for o in obs.values()):
            r2, obs2 = attempt([])
            if all(o[0] == 'proved' for o in obs2.values()):
                r, obs = r2, obs2
        inl = sorted({src.where(f) + ' ' + f.__qualname__ for f in r.w.inlined if src.in_repo(f)})
        res = dict(obs=obs, inlined=len(inl), contracts=len(r.w.used_contracts), loops=len(r.w.loopinfo))
    except Unsupported as e:
        res = dict(obs={'within the verifier\'s subset': ['other', 0.0, str(e)]}, inlined=0, contracts=0, loops=0)
    except Exception as e:
        import traceback
        res = dict(obs={'verifier': ['other', 0.0, '%s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-600:])]}, inlined=0, contracts=0, loops=0)
    res['queries'], res['solver'] = heap.STATS['queries'] - q0, heap.STATS['time'] - s0
    res['time'] = time.time() - t0
    return res


def pool():
    return multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1), maxtasksperchild=20)


def associations(kind):
    for r in m.refs():
        if r.kind == kind and not m.clash(r.key, r.name) and r.name not in m.views(r.key):
            if r.inv is not None and any(m.clash(t, r.inv) for t in m.targets(r.target)):
                continue
            yield r.key, m.find_ref(r.key, r.name)[1]


def where(key, name, op):
    try:
        f = entry(key, name, op)
        return src.where(f) if f is not None else key
    except Exception:
        return key


def prove(prop, kinds=None):
    """[(key, name, op, result)] and statistics for the operations of a property."""
    ops = OPS[prop] if kinds is None else kinds
    jobs, groups, bad = {}, {}, []
    # shapes of the called setters first: their contracts are used by the others
    setters = {}
    if any(k == '1n' for k, _ in ops):
        for key, ref in associations('n1'):
            try:
                setters[(key, ref[0])] = shape(key, ref, 'set1')
            except Exception:
                setters[(key, ref[0])] = None
    reps = {}
    for s in set(setters.values()):
        if s is not None:
            rep = sorted(k for k, v in setters.items() if v == s)[0]
            reps[s] = (rep[0], rep[1], 'set1', [])
    stats = dict(shapes=0, solver=0.0, queries=0)
    with pool() as p:
        sres = dict(zip(reps, p.map(prove_one, [reps[s] for s in reps], 1)))
        ok = {s for s, r in sres.items() if all(o[0] == 'proved' for o in r['obs'].values())}
        todo = {}
        items = []
        for kind, op in ops:
            for key, ref in associations(kind):
                try:
                    s = shape(key, ref, op)
                except Exception as e:
                    bad.append((key, ref[0], op, 'no source: %s' % e))
                    continue
                cs = []
                if kind == '1n':
                    tk, ir = m.inverse(key, ref)
                    ss = setters.get((tk, ir[0]))
                    if ss in ok:
                        cs = [(tk, ir[0])]
                    s += repr(bool(cs)) + (ss or '')
                items.append((key, ref[0], op, s))
                todo.setdefault(s, (key, ref[0], op, cs))
        order = sorted(todo, key=lambda s: todo[s][2] != 'setn')
        res = dict(zip(order, p.map(prove_one, [todo[s] for s in order], 1)))
    stats['shapes'] = len(todo)
    stats['solver'] = sum(r['solver'] for r in list(res.values()) + list(sres.values()))
    stats['queries'] = sum(r['queries'] for r in list(res.values()) + list(sres.values()))
    stats['contracts'] = len(ok)
    out = [(key, name, op, res[s], todo[s][:3] == (key, name, op)) for key, name, op, s in items]
    return out, bad, stats


SPECIAL = ('__eq__', '__ne__', '__bool__', '__nonzero__', '__len__', '__getattr__', '__getattribute__', '__setattr__', '__delattr__', '__new__', '__slots__')


def ground(prop):
    """Evaluated obligations: the class-level facts the proofs rest on."""
    out = []
    for key in sorted(m.CLASSES):
        K = m.cls(key)
        bad = [a for a in SPECIAL if inspect.getattr_static(K, a, None) is not inspect.getattr_static(object, a, None)]
        out.append(('objects compare by identity and have plain attribute access', key, 'proved' if not bad else 'other', ', '.join(bad)))
    for prop_, name_ops in ((prop, OPS[prop]),):
        for kind, op in name_ops:
            for key, ref in associations(kind):
                K = m.cls(key)
                bad = []
                for attr in {ref[0]} if op.startswith('set') else {ref[0], op + ref[0]}:
                    a = inspect.getattr_static(K, attr, None)
                    for sub in m.subclasses(key):
                        if inspect.getattr_static(m.cls(sub), attr, None) is not a and not m.clash(sub, ref[0]):
                            bad.append(sub)
                out.append(('%s of %s resolves to the same code in every subclass' % (op, ref[0]), key, 'proved' if not bad else 'other', ', '.join(bad[:5])))
    return out
