"""Concrete cross-check and counterexample search for constructors (C04)."""
import random
import model, mine

VAL = {'str': ['v1', '', 'None', 'None'], 'int': [7, 0, -1], 'float': [3.25, 0.0, -1e300], 'bool': [True, False]}


def targets_of(r):
    return model.targets(r[2])


def dummy(r, rng=None):
    return model.cls(targets_of(r)[0])()


def check(key, kw_spec):
    """kw_spec: {name: ['a', value] | ['r', n]}; None or a message."""
    K = model.cls(key)
    VIEWS = model.views(key)
    attrs, refs = model.all_attrs(key), model.all_refs(key)
    kw, given, lists, prior = {}, {}, {}, {}
    for n, (t, v) in kw_spec.items():
        if t == 'a':
            kw[n] = v
        else:
            dk, r = refs[n]
            objs = [dummy(r) for _ in range(v)]
            given[n] = objs
            if t == 'o' and r[3] is not None:          # linked already, to another object of the class
                p = prior[n] = K()
                if r[1]:
                    getattr(p, 'add' + n)(*objs)
                elif objs:
                    setattr(p, n, objs[0])
            if r[1]:
                kw[n] = lists[n] = list(objs)
            else:
                kw[n] = objs[0] if objs else None
    try:
        o = K(**kw)
        o2 = K(**{n: list(v) if n in lists else v for n, v in kw.items() if not (n in refs and refs[n][1][3] is not None)})
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)
    for n, (dk, a) in attrs.items():
        want = kw[n] if n in kw else a[2]
        got = getattr(o, n, '<missing>')
        if (got != want or type(got) is not type(want)) and not (n not in kw and known_default(dk, n, got)):
            return '%s is %r, expected %r' % (n, got, want)
    seen = {}
    for n, (dk, r) in refs.items():
        if model.clash(key, n):
            continue
        got = getattr(o, n)
        objs = given.get(n, [])
        if n in VIEWS:
            objs = [x for m in VIEWS for x in given.get(m, [])]
            k = {'SequenceImpedance': 'PerLengthSequenceImpedance', 'PhaseImpedance': 'PerLengthPhaseImpedance'}.get(n)
            objs = [x for x in objs if k is None or type(x).__name__ == k]
        if r[1]:
            if not isinstance(got, (list, tuple)) or sorted(map(id, got)) != sorted(map(id, objs)):
                return '%s is %s, expected %d given object(s)' % (n, short(got), len(objs))
            if n in lists and got is lists[n]:
                return "%s is the caller's own list" % n
            if n in lists and (len(lists[n]) != len(objs) or any(x is not y for x, y in zip(lists[n], objs))):
                return 'the list passed as %s was changed' % n
            if isinstance(got, list):
                if id(got) in seen:
                    return '%s and %s share one list' % (n, seen[id(got)])
                seen[id(got)] = n
                if got is getattr(o2, n):
                    return 'two instances share the list of %s' % n
        elif got is not (objs[0] if objs else None):
            return '%s is %s, expected %s' % (n, short(got), 'the given object' if objs else 'None')
        if n in given and r[3] is not None and n not in VIEWS:
            for x in given[n]:
                inv = getattr(x, r[3])
                if isinstance(inv, list):
                    p = [prior[n]] if n in prior else []
                    if [y for y in inv if y is o] != [o] or len(inv) != 1 + len(p) or p and all(y is not p[0] for y in inv):
                        return "inverse %s of the object given as %s is %s" % (r[3], n, short(inv))
                elif inv is not o:
                    return "inverse %s of the object given as %s is %s" % (r[3], n, short(inv))
        if n in prior and given[n] and n not in VIEWS:
            inv, left = getattr(given[n][0], r[3]), getattr(prior[n], n)
            keeps = any(y is given[n][0] for y in left) if isinstance(left, list) else left is given[n][0]
            if keeps != isinstance(inv, list):
                return 'the previous %s of the object given as %s %s it' % (r[3], n, 'still lists' if keeps else 'has lost')
        if r[1] is False and n in VIEWS and objs and [y for y in objs[0].LineSegments] != [o]:
            return 'LineSegments of the impedance is %s' % short(objs[0].LineSegments)
    return None


def known_default(dk, n, got):
    return [dk, n] in model.KNOWN.get('types', []) and got == ''


def short(v):
    if isinstance(v, list):
        return '[%s]' % ', '.join(type(x).__name__ for x in v)
    return repr(v) if v is None or isinstance(v, (str, int, float)) else type(v).__name__


def specs(key, tier, rng):
    VIEWS = model.views(key)
    attrs, refs = model.all_attrs(key), model.all_refs(key)
    refs = {n: v for n, v in refs.items() if not model.clash(key, n)}
    yield {}
    m = mine.of_class(key)
    X = {'str': m.texts, 'int': m.nums, 'float': m.fnums, 'bool': []}
    few = lambda l: l if len(l) <= 12 else rng.sample(l, 12) if tier == 'quick' else l
    A = {n: VAL[a[1]] + few(X[a[1]]) + [None] for n, (dk, a) in attrs.items()}
    for n, vs in A.items():
        for v in vs:
            yield {n: ('a', v)}
    for n, (dk, r) in refs.items():
        for c in ((0, 1, 2) if r[1] else (1, 0)):
            yield {n: ('r', c)}
        if r[3] is not None and n not in VIEWS:
            yield {n: ('o', 1 + r[1])}
    yield {n: ('a', v[0]) for n, v in A.items()}
    once = [n for n in refs if n not in VIEWS]
    yield {n: ('r', 1 + refs[n][1][1]) for n in once}
    for i in range(12 if tier == 'quick' else 120):
        s = {}
        p = rng.choice([.2, .5, .8])
        for n, vs in A.items():
            if rng.random() < p:
                s[n] = ('a', rng.choice(vs))
        for n in once:
            if rng.random() < p:
                s[n] = ('r', rng.choice([0, 1, 3]) if refs[n][1][1] else rng.choice([0, 1]))
        if VIEWS:
            for n in rng.sample(sorted(VIEWS), rng.choice([0, 1, 1, 2, 3])):
                s[n] = ('r', 0 if any(s.get(m, (0, 0))[1] for m in VIEWS) else rng.choice([0, 1, 1]))
        items = list(s.items())
        rng.shuffle(items)
        yield dict(items)


def describe(key, spec):
    return '%s(%s)' % (key, ', '.join('%s=%s' % (n, repr(v[1]) if v[0] == 'a' else '<%d object(s)>' % v[1]) for n, v in spec.items()))


def job(a):
    keys, tier, seed = a
    n, out = 0, []
    for k in keys:
        try:
            it = list(specs(k, tier, random.Random('%s/%s' % (seed, k))))
        except Exception as e:
            out.append(dict(key=k, spec={}, msg='%s: %s' % (type(e).__name__, e), text=k))
            continue
        for s in it:
            n += 1
            m = check(k, s)
            if m:
                for x in list(s):                  # shrink
                    t = {y: v for y, v in s.items() if y != x}
                    if check(k, t):
                        s = t
                out.append(dict(key=k, spec=s, msg=check(k, s), text=describe(k, s)))
                break
        if len(out) > 3:
            break
    return n, out


def replay(v):
    m = check(v['key'], {n: tuple(x) for n, x in v['spec'].items()})
    return (m, v['text']) if m else None


def search(tier, seed, only=None, procs=8):
    from accessors import pool_run
    model.preload()
    ks = sorted(model.CLASSES) if only is None else only
    ks = [k for k in ks if k not in SHADOWED]
    return pool_run(job, [(ks[i::procs * 4], tier, seed) for i in range(procs * 4)], procs)


SHADOWED = set()
