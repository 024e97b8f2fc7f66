"""C13 as a lemma over the contracts of the writer (C12, C11), the reader
(C06-C09), the reference accessors (C01, C15), the constructors (C04) and the
tables (C05).

With the contracts, what is left to prove of cimread(cimwrite(d)) = d is ground
(per class, profile and property: what one side writes is what the other side
looks for) except for the links, where the order of the assignments made by the
reader must not matter (z3: an invariant over any sequence of assignments)."""
import time, importlib
import z3

DEPS = ('C01', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C11', 'C12', 'C15')
CONV = {'str': lambda v: v, 'int': lambda v: int(str(v)), 'float': lambda v: float(str(v)), 'bool': lambda v: str.title(str(v)) == 'True'}
SAMPLES = {'str': ['', 'a', ' x ', 'None', 'Ä'], 'int': [0, 1, -7, 10 ** 25], 'float': [0.0, -0.0, .1, 1e300, 5e-324, float('inf'), -1 / 3], 'bool': [True, False]}


def links():
    """Whatever the order in which the reader assigns the to-one ends that were
    written, the links end up as they were."""
    out = []
    O = z3.DeclareSort('Object')
    None_ = z3.Const('None', O)
    x, y, u = z3.Consts('x y u', O)
    x0 = z3.Const('x0', O)

    def prove(name, hyps, goal):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*hyps)
        t = time.time()
        live = s.check()
        s.add(z3.Not(goal))
        r = s.check()
        out.append((name, 'proved' if r == z3.unsat and live != z3.unsat else 'other', time.time() - t, '%s, hypotheses %s' % (r, live)))
    f = lambda n: z3.Function(n, O, O)
    B = z3.BoolSort()
    # to-one end r with a to-many inverse (or none); S: objects already treated
    r, r1, r2 = f('r'), f('r1'), f('r2')
    L1, L2 = z3.Function('L1', O, O, B), z3.Function('L2', O, O, B)
    S1, S2 = z3.Function('S1', O, B), z3.Function('S2', O, B)

    def inv_n(r_, L, S):
        return z3.And(z3.ForAll([x], r_(x) == z3.If(S(x), r(x), None_)),
                      z3.ForAll([x, y], z3.Implies(y != None_, L(y, x) == z3.And(x != None_, r_(x) == y))))
    hyp = [r(None_) == None_]
    prove('links, to-one end with a to-many inverse: holds for objects as constructed', hyp + [z3.ForAll([x], z3.Not(S1(x))), z3.ForAll([x], r1(x) == None_), z3.ForAll([x, y], z3.Not(L1(x, y)))], inv_n(r1, L1, S1))
    setter = [x0 != None_, r(x0) != None_, z3.ForAll([x], r2(x) == z3.If(x == x0, r(x0), r1(x))),
              z3.ForAll([x, y], L2(y, x) == z3.If(x == x0, y == r(x0), L1(y, x)))]
    prove('links, to-one end with a to-many inverse: kept by each assignment (contract of the setter)',
          hyp + [inv_n(r1, L1, S1)] + setter + [z3.ForAll([x], S2(x) == z3.Or(S1(x), x == x0))], inv_n(r2, L2, S2))
    prove('links, to-one end with a to-many inverse: equal to the original when every end that is set has been assigned',
          hyp + [inv_n(r1, L1, S1), z3.ForAll([x], z3.Implies(r(x) != None_, S1(x)))],
          z3.And(z3.ForAll([x], r1(x) == r(x)), z3.ForAll([x, y], z3.Implies(z3.And(x != None_, y != None_), L1(y, x) == (r(x) == y)))))
    # both ends to-one; a self-inverse reference is the case r = s
    for name, same in (('two to-one ends', False), ('a to-one end that is its own inverse', True)):
        s_ = r if same else f('s')
        s1 = r1 if same else f('s1')
        s2 = r2 if same else f('s2')
        hyp = [r(None_) == None_, s_(None_) == None_, z3.ForAll([x, y], z3.Implies(z3.And(x != None_, y != None_), (r(x) == y) == (s_(y) == x)))]

        def inv(a, b):
            return z3.And(a(None_) == None_, b(None_) == None_, z3.ForAll([x], z3.Or(a(x) == None_, a(x) == r(x))), z3.ForAll([x], z3.Or(b(x) == None_, b(x) == s_(x))),
                          z3.ForAll([x, y], z3.Implies(z3.And(x != None_, y != None_), (a(x) == y) == (b(y) == x))))
        prove('links, %s: holds for objects as constructed' % name, hyp + [z3.ForAll([x], r1(x) == None_), z3.ForAll([x], s1(x) == None_)], inv(r1, s1))
        # contract of the setter (C01): x0.r := v; the former partners of x0 and of v are unlinked
        v = r(x0)
        if same:
            setter = [z3.ForAll([x], r2(x) == z3.If(x == x0, v, z3.If(x == v, x0, z3.If(z3.And(x != None_, z3.Or(r1(x) == x0, r1(x) == v)), None_, r1(x)))))]
        else:
            setter = [z3.ForAll([x], r2(x) == z3.If(x == x0, v, z3.If(z3.And(x != None_, r1(x) == v), None_, r1(x)))),
                      z3.ForAll([y], s2(y) == z3.If(y == v, x0, z3.If(z3.And(y != None_, s1(y) == x0), None_, s1(y))))]
        prove('links, %s: kept by each assignment (contract of the setter), and nothing assigned before is lost' % name,
              hyp + [inv(r1, s1), x0 != None_, v != None_] + setter,
              z3.And(inv(r2, s2), r2(x0) == v, z3.ForAll([x], z3.Implies(r1(x) != None_, r2(x) == r1(x)))))
        prove('links, %s: equal to the original when every end that is set has been assigned' % name,
              hyp + [inv(r1, s1), z3.ForAll([x], z3.Implies(r(x) != None_, r1(x) == r(x)))], z3.And(z3.ForAll([x], r1(x) == r(x)), z3.ForAll([x], s1(x) == s_(x))))
    return out


def ground():
    """(name, where, ok, detail) for every class and property."""
    import model as m, docs
    out = []
    uri = {}
    for p in m.PROFILES:
        mod = importlib.import_module(p)
        v = p.split('.')[0]
        uri[v] = importlib.import_module(v).nsURI
        for k in sorted(m.CLASSES):
            K = m.cls(k)
            pm = mod.packageMap
            if pm.get(K.__name__) == K.__module__:
                out.append(('an element named %s is read as class %s with the class map of %s' % (K.__name__, k, p), p, getattr(importlib.import_module(pm[K.__name__]), K.__name__, None) is K, ''))
    readable = {m.PROFILES[p]['packageMap'][n] + '.' + n for p in m.PROFILES for n in m.PROFILES[p]['packageMap']}
    for v, u in uri.items():
        out.append(('the namespace the writer uses for %s, without "#", is that by which the reader chooses the class map' % v, v, bool(u) and '#' not in u and not set(u) & set('{}'), u))
    for e in sorted({(n, l) for p in m.SCHEMA['enums'].values() for n, ls in p.items() for l in ls}):
        if '.' in e[1] or '#' in e[1]:
            out.append(('literal %s of %s has no "." or "#"' % (e[1], e[0]), e[0], False, ''))
    for k in sorted(readable & set(m.CLASSES)):
        K = m.cls(k)
        attrs, refs = m.all_attrs(k), m.all_refs(k)
        clash = sorted(set(attrs) & set(refs))
        ok = not clash
        bad = ['%s is an attribute and a reference' % n for n in clash]
        for c in m.mro(k):
            C = m.cls(c)
            if C.__name__ == 'Element':
                continue
            for a, typ, dflt, enum in m.CLASSES[c]['attrs']:
                if '.' in a or '.' in C.__name__:
                    bad.append('%s.%s has a "."' % (C.__name__, a))
                d = attrs[a][1]
                if bool(d[3]) != bool(enum) or d[1] != typ and not enum:
                    bad.append('%s.%s is redeclared with another type' % (C.__name__, a))
                if not enum:
                    if type(dflt).__name__ != typ:
                        bad.append('the default of %s.%s is not of its type' % (C.__name__, a))
                    if typ not in CONV:
                        bad.append('no conversion for type %s' % typ)
                if a != 'UUID' and (bool(a in C._enums) != bool(enum) or a not in C._attrs):
                    bad.append('%s.%s: table of enumerations' % (C.__name__, a))
            for r, many, t, inv in m.CLASSES[c]['refs']:
                if '.' in r:
                    bad.append('%s.%s has a "."' % (C.__name__, r))
                if many and inv and not m.clash(k, r):
                    # links of a to-many end come back through the other end, or are many-to-many
                    q = m.inverse(c, (r, many, t, inv))[1]
                    if q is None:
                        bad.append('%s.%s: no inverse' % (C.__name__, r))
                if not many and (r in C._many_refs or r not in C._refs):
                    bad.append('%s.%s is not written' % (C.__name__, r))
        n = len(attrs) + len(refs)
        out.append(('%s: property names, kinds and types written are those read' % k, k, not bad, '; '.join(bad), n))
    for t, vs in sorted(SAMPLES.items()):
        for x in vs:
            y = CONV[t](x)
            out.append(('the %s %r is read back from its text' % (t, x), 'str, %s' % t, y == x and type(y) is type(x), repr(y)))
    return out
