"""Concrete cross-check and counterexample search for the association
properties (C01, C02, C03, C15).  Runs the real classes against a relational
model: the state of one association is a set of pairs (a, b) - `a.R` lists or
is b, `b.I` is or lists a."""
import itertools, random
import model, mine


class Bad(Exception):
    pass


def plain(v):
    return [v] if v is not None and not isinstance(v, (list, tuple)) else v


class World:
    """Two populations A (holders, role R) and B (role I) of one association."""

    def __init__(self, ref, na, nb, akey=None, bkey=None, rich=False, attrs=()):
        self.ref = ref
        self.akey = akey or ref.key
        ts = model.targets(ref.target)
        self.bkey = bkey or ts[0]
        A = model.cls(self.akey)
        self.selfassoc = ref.inv is not None and model.find_ref(self.bkey, ref.inv)[1][2] != '*' and \
            model.find_ref(self.bkey, ref.inv)[0] == ref.key == ts[0]
        self.a = [A() for _ in range(na)]
        if ref.target == '*':
            self.b = [model.cls(ts[i % 2])() for i in range(nb)]
            self.bkeys = [ts[i % 2] for i in range(nb)]
        else:
            B = model.cls(self.bkey)
            if self.selfassoc and self.bkey == self.akey:
                while len(self.a) < nb:
                    self.a.append(A())
                self.b = self.a[:nb]
            else:
                self.b = [B() for _ in range(nb)]
            self.bkeys = [self.bkey] * nb
        for side, i, n, v in attrs:
            setattr((self.a if side == 'a' else self.b)[i], n, v)
        VIEWS = model.VIEWS
        self.name = {}
        for i, o in enumerate(self.b):
            self.name[id(o)] = 'b%d' % i
        for i, o in enumerate(self.a):
            self.name[id(o)] = 'a%d' % i
        self.extra = []
        self.links = set()
        self.ulist = [[] for _ in self.a]
        if rich:
            self.fill()
        mine = {(ref.name), (ref.inv)}
        if 'CIM15.IEC61970.Wires.ACLineSegment' in (ref.key, self.bkey) and {ref.name, ref.inv} & (VIEWS | {'LineSegments'}):
            mine |= VIEWS | {'LineSegments'}
        self.others = []
        seen = set()
        for o, k in [(o, self.akey) for o in self.a] + list(zip(self.b, self.bkeys)) + self.extra:
            if id(o) in seen:
                continue
            seen.add(id(o))
            for n in model.all_refs(k):
                if n in mine:
                    continue
                self.others.append((o, k, n))
        self.base = None

    def fill(self):
        seen = set()
        for o, k in [(o, self.akey) for o in self.a] + list(zip(self.b, self.bkeys)):
            if id(o) in seen:
                continue
            seen.add(id(o))
            for n, (dk, r) in model.all_refs(k).items():
                if n == self.ref.name or n == self.ref.inv or r[3] in (self.ref.inv, self.ref.name) or model.clash(k, n) or n in model.views(k):
                    continue
                try:
                    t = model.targets(r[2])[0]
                    x = model.cls(t)()
                    self.name[id(x)] = 'x%d' % len(self.extra)
                    if r[1]:
                        getattr(o, 'add' + n)(x)
                    else:
                        setattr(o, n, x)
                    self.extra.append((x, t))
                except Exception:
                    pass

    def show(self, v):
        if isinstance(v, (list, tuple)):
            return '[' + ', '.join(self.show(x) for x in v) + ']'
        if v is None:
            return 'None'
        return self.name.get(id(v), '<%s>' % type(v).__name__)

    def read(self, o, n):
        v = getattr(o, n)
        if isinstance(v, (list, tuple)):
            return sorted(map(id, v)), v
        return id(v), v

    def snap(self):
        return [self.read(o, n)[0] for o, k, n in self.others]

    # ---- model
    def unlink_b(self, b):
        self.links = {p for p in self.links if p[1] != b}

    def unlink_a(self, a):
        self.links = {p for p in self.links if p[0] != a}

    def check(self):
        r = self.ref
        L = self.links
        for i, o in enumerate(self.a):
            want = sorted(id(self.b[y]) for x, y in L if x == i)
            got = getattr(o, r.name)
            if r.many:
                if got is None or isinstance(got, str):
                    raise Bad('a%d.%s is %r' % (i, r.name, got))
                ok = sorted(map(id, got)) == want
            else:
                ok = [id(x) for x in ([] if got is None else plain(got))] == want
            if not ok:
                raise Bad('a%d.%s is %s, expected %s' % (i, r.name, self.show(got), [self.show(self.b[y]) for x, y in sorted(L) if x == i]))
        if r.inv is not None:
            many = model.find_ref(self.bkeys[0], r.inv)[1][1]
            for j, o in enumerate(self.b):
                want = sorted(id(self.a[x]) for x, y in L if y == j)
                got = getattr(o, r.inv)
                gl = sorted(map(id, got)) if many else ([] if got is None else [id(got)])
                if gl != want:
                    raise Bad('b%d.%s is %s, expected %s' % (j, r.inv, self.show(got), [self.show(self.a[x]) for x, y in sorted(L) if y == j]))
        s = self.snap()
        if self.base is not None and s != self.base:
            for (o, k, n), x, y in zip(self.others, self.base, s):
                if x != y:
                    raise Bad('another reference changed: %s.%s is now %s' % (self.show(o), n, self.show(getattr(o, n))))
        self.base = s

    def apply(self, op):
        r = self.ref
        what = op[0]
        try:
            if what == 'set':       # a.R = b  (to-one R)
                _, i, j = op
                setattr(self.a[i], r.name, None if j is None else self.b[j])
                self.unlink_a(i)
                if j is not None:
                    if r.kind == '11':
                        self.unlink_b(j)
                    self.links.add((i, j))
            elif what == 'seti':    # b.I = a  (to-one I, setup)
                _, j, i = op
                setattr(self.b[j], r.inv, None if i is None else self.a[i])
                self.unlink_b(j)
                if i is not None:
                    self.links.add((i, j))
            elif what == 'add':
                _, i, js = op
                getattr(self.a[i], 'add' + r.name)(*[self.b[j] for j in js])
                for j in js:
                    if r.kind == '1n':
                        self.unlink_b(j)
                    self.links.add((i, j))
            elif what == 'remove':
                _, i, js = op
                getattr(self.a[i], 'remove' + r.name)(*[self.b[j] for j in js])
                for j in js:
                    self.links.discard((i, j))
            elif what == 'list':    # a.R = sequence
                _, i, js, form = op
                if form == 'own':
                    js = [self.b.index(x) if not self.selfassoc else [id(z) for z in self.b].index(id(x)) for x in getattr(self.a[i], r.name)]
                    val = getattr(self.a[i], r.name)
                elif form == 'other':
                    k = js
                    val = getattr(self.a[k], r.name)
                    ids = [id(z) for z in self.b]
                    js = [ids.index(id(x)) for x in val]
                elif form == 'tuple':
                    val = tuple(self.b[j] for j in js)
                else:
                    val = [self.b[j] for j in js]
                copy = list(val)
                setattr(self.a[i], r.name, val)
                if form in ('list', 'tuple'):
                    if list(val) != copy or any(x is not y for x, y in zip(val, copy)):
                        raise Bad('the assigned sequence itself was changed: %s' % self.show(val))
                    if getattr(self.a[i], r.name) is val and form == 'list':
                        raise Bad("the caller's list became the holder's own list")
                self.unlink_a(i)
                for j in js:
                    if r.kind == '1n':
                        self.unlink_b(j)
                    self.links.add((i, j))
        except Bad:
            raise
        except Exception as e:
            raise Bad('%s: %s' % (type(e).__name__, e))
        self.check()


def describe(w, ops):
    r = w.ref
    out = []
    for op in ops:
        if op[0] == 'set':
            out.append('a%d.%s = %s' % (op[1], r.name, 'None' if op[2] is None else 'b%d' % op[2]))
        elif op[0] == 'seti':
            out.append('b%d.%s = %s' % (op[1], r.inv, 'None' if op[2] is None else 'a%d' % op[2]))
        elif op[0] in ('add', 'remove'):
            out.append('a%d.%s%s(%s)' % (op[1], op[0], r.name, ', '.join('b%d' % j for j in op[2])))
        else:
            if op[3] == 'own':
                out.append('a%d.%s = a%d.%s' % (op[1], r.name, op[1], r.name))
            elif op[3] == 'other':
                out.append('a%d.%s = a%d.%s' % (op[1], r.name, op[2], r.name))
            else:
                s = ', '.join('b%d' % j for j in op[2])
                out.append('a%d.%s = %s' % (op[1], r.name, ('[%s]' if op[3] == 'list' else '(%s)') % s))
    pre = 'a*: %s, b*: %s%s' % (w.akey, w.bkey, ' (the same objects: b<i> is a<i>)' if w.selfassoc and w.akey == w.bkey else '')
    return pre + '; ' + '; '.join(out)


def run_ops(ref, na, nb, ops, akey=None, bkey=None, rich=False, attrs=()):
    """None, or (message, description) of the first violation."""
    try:
        w = World(ref, na, nb, akey, bkey, rich, attrs)
    except Exception as e:
        return ('cannot construct: %s: %s' % (type(e).__name__, e), 'construct %s / %s' % (ref.key, ref.target))
    done = []
    try:
        w.check()
        for op in ops:
            done.append(op)
            w.apply(op)
    except Bad as e:
        return (str(e), ''.join('%s%d.%s = %r; ' % tuple(x) for x in attrs) + describe(w, done))
    return None


def setup(kind, links, style):
    ops = []
    for a, b in links:
        if kind in ('11', 'n1', 'u1'):
            ops.append(('set', a, b))
        else:
            ops.append(('add', a, (b,)))
    return ops


def states(kind, na, nb):
    A, B = range(na), range(nb)
    if kind in ('n1', 'u1'):                    # each a at most one b
        for f in itertools.product([None] + list(B), repeat=na):
            yield [(a, f[a]) for a in A if f[a] is not None]
    elif kind == '11':
        for f in itertools.product([None] + list(B), repeat=na):
            v = [x for x in f if x is not None]
            if len(v) == len(set(v)):
                yield [(a, f[a]) for a in A if f[a] is not None]
    elif kind == '1n':
        for f in itertools.product([None] + list(A), repeat=nb):
            yield [(f[b], b) for b in B if f[b] is not None]
    else:
        pairs = [(a, b) for a in A for b in B]
        for n in range(len(pairs) + 1):
            for c in itertools.combinations(pairs, n):
                yield list(c)


def seqs(items, n):
    for k in range(n + 1):
        yield from itertools.product(items, repeat=k)


def final_ops(prop, ref, links, na, nb):
    A, B = range(na), range(nb)
    if prop == 'C01':
        for a in A:
            for b in [None] + list(B):
                yield ('set', a, b)
    elif prop == 'C02':
        for a in A:
            for js in seqs(list(B), 2):
                yield ('add', a, js)
            linked = [b for x, b in links if x == a]
            for k in range(len(linked) + 1):
                for js in itertools.permutations(linked, k):
                    yield ('remove', a, js)
    else:
        for a in A:
            for js in seqs(list(B), 3 if nb < 3 else 2):
                yield ('list', a, js, 'list')
            yield ('list', a, (), 'own')
            yield ('list', a, (nb - 1,), 'tuple')
            yield ('list', a, tuple(B), 'tuple')
            for k in A:
                if k != a:
                    yield ('list', a, k, 'other')


def random_ops(prop, ref, na, nb, n, rng):
    ops = []
    w = set()
    A, B = range(na), range(nb)
    for _ in range(n):
        a = rng.randrange(na)
        c = rng.random()
        if prop == 'C01':
            b = rng.choice([None] + list(B))
            ops.append(('set', a, b))
            continue
        if prop == 'C03' and c < .5 and ref.inv is not None:
            k = rng.randrange(0, nb + 2)
            js = tuple(rng.randrange(nb) for _ in range(k))
            ops.append(('list', a, js, rng.choice(['list', 'list', 'tuple'])))
            w = {p for p in w if p[0] != a}
            for b in js:
                if ref.kind == '1n':
                    w = {p for p in w if p[1] != b}
                w.add((a, b))
        elif c < .75 or not any(p[0] == a for p in w):
            js = tuple(rng.randrange(nb) for _ in range(rng.choice([0, 1, 2, 3, nb, nb + 1])))
            ops.append(('add', a, js))
            for b in js:
                if ref.kind == '1n':
                    w = {p for p in w if p[1] != b}
                w.add((a, b))
        else:
            l = [b for x, b in w if x == a]
            rng.shuffle(l)
            js = tuple(l[:rng.randrange(1, len(l) + 1)])
            ops.append(('remove', a, js))
            w -= {(a, b) for b in js}
    return ops


def many(ref, na, nb):
    """Calls with as many arguments as there are objects."""
    B = tuple(range(nb))
    ops = [('remove', 0, B[-1:]), ('add', 1, (0, nb - 1)), ('add', 1, B), ('add', 1, B + B[::-1]), ('remove', 1, B)]
    if ref.kind == 'nn' and na > 4:      # a holder in the middle of a long list
        ops += [('remove', na - 2, B[:1]), ('remove', na // 2, B[:1]), ('remove', na - 1, B[:1])]
    return ops + [('add', 0, B[::-1]), ('remove', 0, B[1:])]


def values(rng, ref, na, nb, M):
    """Attribute assignments: constants of the two class modules, equal values."""
    out = []
    texts = sorted({t for m in M for t in m.texts} | {'', 'same'})
    nums = sorted({t for m in M for t in m.nums} | {0, 1})
    fl = sorted({t for m in M for t in m.fnums} | {0.0, 1.0})
    for side, k, n in (('a', ref.key, na), ('b', model.targets(ref.target)[0], nb)):
        at = model.all_attrs(k)
        for a, (dk, s) in at.items():
            if s[3] or s[1] not in ('str', 'int', 'float', 'bool') or a != 'UUID' and rng.random() < .3:
                continue
            pool = {'str': texts, 'int': nums, 'float': fl, 'bool': [True, False]}[s[1]]
            same = rng.random() < .5
            v = rng.choice(pool)
            for i in range(n):
                if rng.random() < .8:
                    out.append([side, i, a, v if same else rng.choice(pool)])
    return out


KINDS = {'C01': ('n1', '11', 'u1'), 'C02': ('1n', 'nn', 'um'), 'C03': ('1n', 'nn')}


def explore(prop, ref, tier, rng):
    """All violations search for one reference; returns (count, first violation or None)."""
    n = 0
    size = (2, 2)

    def go(na, nb, ops, **kw):
        nonlocal n
        n += 1
        r = run_ops(ref, na, nb, ops, **kw)
        if r:
            return dict(ref=[ref.key, ref.name], na=na, nb=nb, ops=ops, kw=kw, msg=r[0], text=r[1])

    sizes = [(2, 2)] if tier == 'quick' else [(2, 2), (3, 2), (2, 3)]
    for na, nb in sizes:
        for st in states(ref.kind, na, nb):
            if tier == 'quick' and ref.kind in ('nn', 'um') and len(st) > 3:
                continue
            pre = setup(ref.kind, st, 0)
            for op in final_ops(prop, ref, st, na, nb):
                v = go(na, nb, pre + [op])
                if v:
                    return n, v
    hist = 2 if tier == 'quick' else 25
    for i in range(hist):
        na, nb = (3, 4) if i % 2 == 0 else (2, 7)
        v = go(na, nb, random_ops(prop, ref, na, nb, 12 if tier == 'quick' else 40, rng))
        if v:
            return n, v
    # attribute values: constants of the code, equal values everywhere
    deep = mine.DEEP
    M = [mine.of_class(ref.key), mine.of_class(model.targets(ref.target)[0])]
    for i in range(2 if tier == 'quick' else 60 if deep else 6):
        na, nb = rng.choice([(2, 3), (3, 3), (2, 5)])
        v = go(na, nb, random_ops(prop, ref, na, nb, 10 if tier == 'quick' else 25, rng), attrs=values(rng, ref, na, nb, M))
        if v:
            return n, v
    sizes = sorted({s for m in M for s in m.sizes} | {5})
    if deep:
        sizes += [12, 33, 65]
    for s in sizes if tier == 'quick' else sizes * 3:
        for na, nb in ((2, s), (s, 2)) + (((s + 2, 2),) if ref.kind == 'nn' else ()):
            if s > (300 if deep else 60) or mine.late():
                continue
            pre = setup(ref.kind, [(x, x % nb) for x in range(na)] if prop == 'C01' else [(0, x) for x in range(nb)], 0)
            if ref.kind == '11':
                pre = [('set', x, x) for x in range(min(na, nb))]
            if ref.kind == 'nn':
                pre += [('add', x, (0,)) for x in range(1, na)]
            ops = pre + (random_ops(prop, ref, na, nb, 6, rng) if prop == 'C01' else many(ref, na, nb) if prop == 'C02' and nb > 1 else
                         [('list', 1, tuple(range(nb)), 'list'), ('list', 0, tuple(range(nb))[::-1], 'tuple'), ('list', 0, (0,), 'list')] +
                         ([('list', na - 2, (1,), 'list'), ('list', na // 2, (), 'list')] if ref.kind == 'nn' and na > 4 and nb > 1 else []) if prop == 'C03' and na > 1 else [])
            v = go(na, nb, ops)
            if v:
                return n, v
    # declared subclasses on either side, all other references populated
    sa = model.subclasses(ref.key)
    sb = model.subclasses(model.targets(ref.target)[0])
    sa = [k for k in sa if not model.clash(k, ref.name)] or [ref.key]
    sb = [k for k in sb if not (ref.inv and model.clash(k, ref.inv))] or [model.targets(ref.target)[0]]
    if ref.target == '*' or ref.name in model.views(ref.key) or ref.inv in model.views(model.targets(ref.target)[0]):
        sb = [model.targets(ref.target)[0]]
    for i in range(1 if tier == 'quick' else 4):
        ka, kb = rng.choice(sa), rng.choice(sb)
        v = go(2, 3, random_ops(prop, ref, 2, 3, 8, rng), akey=ka, bkey=kb, rich=True)
        if v:
            return n, v
    return n, None


def shrink(v):
    """Greedy removal of operations that are not needed for the violation."""
    ref = get_ref(v['ref'])
    ops = list(v['ops'])
    i = 0
    while i < len(ops):
        t = ops[:i] + ops[i + 1:]
        # a remove must stay legal: objects linked
        if legal(ref, t) and run_ops(ref, v['na'], v['nb'], t, **v['kw']):
            ops = t
        else:
            i += 1
    r = run_ops(ref, v['na'], v['nb'], ops, **v['kw'])
    if r:
        v = dict(v, ops=ops, msg=r[0], text=r[1])
    return v


def legal(ref, ops):
    L = set()
    for op in ops:
        if op[0] == 'set':
            L = {p for p in L if p[0] != op[1] and (ref.kind != '11' or p[1] != op[2])}
            if op[2] is not None:
                L.add((op[1], op[2]))
        elif op[0] == 'add':
            for b in op[2]:
                if ref.kind == '1n':
                    L = {p for p in L if p[1] != b}
                L.add((op[1], b))
        elif op[0] == 'remove':
            for b in op[2]:
                if (op[1], b) not in L:
                    return False
                L.discard((op[1], b))
        elif op[0] == 'list':
            if op[3] not in ('list', 'tuple'):
                return True
            L = {p for p in L if p[0] != op[1]}
            for b in op[2]:
                if ref.kind == '1n':
                    L = {p for p in L if p[1] != b}
                L.add((op[1], b))
    return True


def get_ref(kn):
    k, n = kn
    return model.Ref(k, [r for r in model.CLASSES[k]['refs'] if r[0] == n][0])


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def replay(v):
    return run_ops(get_ref(v['ref']), v['na'], v['nb'], [tup(o) for o in v['ops']], **v['kw'])


def job(a):
    prop, items, tier, seed = a
    out = []
    n = 0
    for kn in items:
        ref = get_ref(kn)
        if mine.late():
            break
        c, v = explore(prop, ref, tier, random.Random('%s/%s/%s' % (seed, kn, prop)))
        n += c
        if v:
            out.append(shrink(v))
            if len(out) > 3:
                break
    return n, out


def search(prop, tier, seed, only=None, procs=8):
    model.preload()
    rs = [(r.key, r.name) for r in model.refs() if r.kind in KINDS[prop]] if only is None else only
    return pool_run(job, [(prop, rs[i::procs * 4], tier, seed) for i in range(procs * 4)], procs)


def pool_run(f, jobs, procs=8):
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    n, out = 0, []
    with ctx.Pool(procs) as p:
        for c, v in p.imap_unordered(f, jobs):
            n += c
            out += v
    return n, out
