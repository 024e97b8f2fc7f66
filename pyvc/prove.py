"""Provers per property: run(prop, tier) -> Result."""
import time, traceback


class Ob:
    __slots__ = ('name', 'where', 'status', 'backend', 'time', 'detail', 'definite', 'count')

    def __init__(s, name, where, status, backend, time=0.0, detail='', definite=False):
        s.name, s.where, s.status, s.backend, s.time, s.detail, s.definite, s.count = name, where, status, backend, time, detail, definite, 1

    def brief(s):
        return '%s [%s] %s%s' % (s.name, s.where, s.status, ' (%s)' % s.detail[:300] if s.detail and s.status != 'proved' else '')


class Result:
    def __init__(s, level='proof'):
        s.level = level
        s.obligations, s.functions, s.assumptions, s.trusted, s.vacuity = [], [], [], [], {}
        s.bounded, s.explanation = '', ''
        s.solver, s.queries, s.only = None, None, None

    def add(s, *a, **k):
        s.obligations.append(Ob(*a, **k))

    def backends(s):
        d = {}
        for o in s.obligations:
            d[o.backend] = d.get(o.backend, 0) + o.count
        return d


TRUST = ['z3 (unsat answers)', 'PyVC itself (pyvc/): symbolic semantics of the Python subset, the loop rule, the axioms of its domains',
         'CPython: ast.parse and function objects give the code that runs']

HEAP = ['objects in references are instances of the declared classes of this repository; user subclasses do not override accessors or comparison',
        'single thread; lists handed out by getters are not modified behind the accessors',
        'order of list members is not part of the statement']


def accessors(prop, tier):
    from . import accessors as A
    r = Result()
    out, bad, st = A.prove(prop)
    names = {'set1': 'set', 'setn': 'set', 'add': 'add', 'remove': 'remove'}
    only = []
    vac = 0
    for key, name, op, res, rep in out:
        w = A.where(key, name, op)
        fn = '%s.%s%s' % (key, names[op], name)
        r.functions.append(fn)
        for n, (status, t, detail) in res['obs'].items():
            if n.startswith('contract:') and status != 'proved':
                continue        # stronger than the property; callers then inline the function
            if n.startswith(('precondition satisfiable', 'path conditions', 'some path')):
                vac += 1
            r.add('%s: %s' % (fn, n), w, 'proved' if status == 'proved' else 'failed' if status == 'failed' else 'other',
                  'z3' if rep else 'z3, shared with a function identical up to the names of the two ends', t if rep else 0.0, detail)
            if status != 'proved' and (key, name) not in only:
                only.append((key, name))
    for key, name, op, why in bad:
        r.add('%s.%s %s: source' % (key, name, op), key, 'other', 'none', 0.0, why)
    for n, w, status, detail in A.ground(prop):
        r.add(n, w, status, 'evaluation', 0.0, detail)
    r.solver, r.queries, r.only = st['solver'], st['queries'], only
    r.vacuity = dict(reachability_checks=vac, distinct_shapes_proved=st['shapes'], setter_contracts_used=st['contracts'])
    r.assumptions = HEAP + ['four classes that redeclare an inherited reference are outside (known findings)']
    if prop == 'C02':
        r.assumptions.append('remove: the arguments are distinct objects currently linked to the holder')
    r.trusted = TRUST + ['instances have the reference attributes their constructors create (C04)', 'spec/schema.json (checked against the code by C05)']
    r.bounded = 'small-scope enumeration and random histories of the real accessors'
    return r


def tables(prop, tier):
    """C05 is a statement about finitely many constants: every obligation is
    ground and decided by evaluating both sides."""
    import tables as T, model
    r = Result()
    n, viol = T.search()
    r.cached = (n, viol)
    r.add('metadata tables, instance attributes, references and class maps equal to the specification (%d ground obligations)' % (n - len(viol)),
          'CIM14/, CIM15/', 'proved', 'evaluation')
    r.obligations[-1].count = n - len(viol)
    for v in viol:
        r.add(v['what'], v['key'], 'failed', 'evaluation', 0.0, v['msg'])
    r.functions = ['class body of ' + k for k in sorted(model.CLASSES)]
    r.assumptions = ['the .ecore models are condensed correctly in spec/schema.json (tools/gen_schema.py, which also lists the hand-made extensions)',
                     'that references can be assigned for all values is C01 and C03; here each is assigned once']
    r.trusted = ['CPython evaluates the class bodies']
    r.vacuity = dict(classes=len(model.CLASSES), ground_obligations=n)
    r.bounded = 'nothing: the space is finite and enumerated completely'
    return r


RDR = ['the source is a well-formed document: rdf:RDF root, namespaces declared on the root and ending in "#"; elements of another namespace contain no CIM elements',
       'top-level CIM elements carry rdf:ID or rdf:about ("#" and an identifier); class names have no "."; property elements are named Declaring.attribute and carry neither',
       'references are "#" and an identifier; enumeration resources are "<URI>#<Enum>.<literal>"; attribute texts are lexically valid for the type of the attribute (any letter case for booleans)',
       'an explicit class map is non-empty, its namespace is non-empty and without "#", "{", "}"; the document declares the prefix "cim" when none is given',
       'a property element names either a CIM property of the class or nothing at all of the object (not another Python member)',
       'objects of a start dictionary have the attributes of their class, holding values of the declared types; the identifier of an element of unknown class names no other object',
       'strings are handled as concatenations of independent unknown pieces with the stated shapes; decisions about them that these shapes do not settle are explored both ways']
RDRTRUST = ['contract assumed of xml.etree iterparse: events in document order, a start event before the text and children of an element are known, an end event once they are, attributes at both; a document is parsed from where the stream stands',
            'contract assumed of the import system: packageMap[tag] names a module with a class tag (established for the two profiles by C05)',
            'contracts of the reference accessors used by setattr/addX: C01-C03 (proved by those checks)']


def reader(prop, tier):
    """cimread and its helpers, interpreted against the symbolic document."""
    from . import rdrprove as P, src
    import model, types
    import PyCIM.RDFXMLReader as M
    r = Result()
    cs = P.cases()
    cov = dict(states=0, paths=0)
    reached = {}
    for i, d in P.prove():
        c, st = cs[i], d['stats']
        where = 'PyCIM/RDFXMLReader.py cimread'
        cov['states'] += st['states']
        cov['paths'] += st['paths']
        for k, n in st['covered'].items():
            reached[k] = reached.get(k, 0) + n
        mine = lambda k: prop in P.BELONGS.get(k, P.GENERAL.get(k, P.ALL))
        error_case = c.args.startswith('only')
        for k in sorted(set(d['fails'])):
            if mine(k):
                r.add('%s (%s)' % (k, c), where, 'failed', 'PyVC', 0.0, str(d['fails'][k])[:1500], k in d['sure'])
        ok = 'proved' if d['complete'] else 'other'
        if error_case:
            want = ['giving only one of class map and namespace raises ValueError']
        else:
            want = sorted(P.FULL if c.args != 'none' else []) + [g for g in P.GENERAL if not g.startswith('giving')]
        for k in want:
            if k in d['fails'] or not mine(k):
                continue
            if k in P.FULL and k not in st['covered'] and d['complete']:
                r.add('%s is reached (%s)' % (k, c), where, 'other', 'PyVC', 0.0, 'no path covers the case')
                continue
            r.add('%s (%s)' % (k, c), where, ok, 'PyVC: strings decided structurally, loop heads closed under all events', 0.0, d['why'][-600:] if ok == 'other' else '')
        r.obligations[-1].time = st['time']
    fs = [f for f in vars(M).values() if isinstance(f, types.FunctionType) and src.in_repo(f) and f.__module__ == M.__name__]
    r.functions = sorted('RDFXMLReader.%s' % f.__name__ for f in fs)
    r.solver = sum(d['stats']['time'] for i, d in P._res['r'])
    r.queries = None
    r.assumptions = RDR
    r.trusted = TRUST[1:] + RDRTRUST
    r.vacuity = dict(entry_cases=len(cs), abstract_states=cov['states'], paths=cov['paths'], cases_reached=reached)
    r.bounded = 'generated documents read by the real code and compared with an independent reference reader'
    return r


def ctors(prop, tier):
    """Every constructor against its contract, base constructors by theirs."""
    import model as m
    from . import ctorprove as P
    r = Result()
    rs = P.prove()
    for d in rs:
        k = d['key']
        w = m.CLASSES[k]['file'] if 'file' in m.CLASSES[k] else k.replace('.', '/')
        r.functions.append(k + '.__init__')
        for ob, detail in sorted(d['fails'].items()):
            # storage written directly may be linked by hand afterwards: the concrete side decides
            r.add('%s.__init__: %s' % (k, ob), w, 'failed', 'PyVC', 0.0, detail, 'is stored without being linked' not in detail)
        total = 4 + d['attrs'] + d['refs']
        if d['und']:
            r.add('%s.__init__' % k, w, 'other', 'PyVC', d['time'], '; '.join(d['und'][:3]))
        elif d['reached'] == 0:
            r.add('%s.__init__ returns' % k, w, 'failed' if not d['fails'] else 'other', 'PyVC', d['time'], 'no path returns')
        else:
            r.add('%s.__init__: %d attributes, %d references, lists not shared, writes only its own fields, never fails, returns' % (k, d['attrs'], d['refs']), w, 'proved',
                  'PyVC: guarded effects compared for every combination of keyword states', d['time'])
            r.obligations[-1].count = total - len(d['fails'])
    r.assumptions = ['keywords are those of the class and its bases; a value given for a to-one reference is an object or None, for a to-many reference a list or None, for an attribute a value of its type or None',
                     'arguments are given by keyword (positional arguments are outside the statement)',
                     'four classes that redeclare an inherited reference are outside (known findings)']
    r.trusted = TRUST[1:] + ['contracts of the reference accessors: C01-C03', 'contract of each base constructor is the one proved for the base class', 'spec/schema.json (checked against the code by C05)']
    r.vacuity = dict(classes=len(rs), paths=sum(d['paths'] for d in rs), returning=sum(d['reached'] > 0 for d in rs))
    r.bounded = 'constructor calls with systematic and random keyword subsets on every class'
    return r


def segment(prop, tier):
    """The views of a line segment, the impedance side, and its constructor."""
    import model as m, inspect
    from . import viewprove as V, ctorprove as P
    r = Result()
    r.solver, r.queries = 0.0, 0
    vac = 0
    for fn, w, obs, q, s in V.prove():
        r.functions.append(fn)
        r.solver += s
        r.queries += q
        for n, (status, t, detail) in obs.items():
            vac += n.startswith(('precondition satisfiable', 'path conditions', 'some path', 'returns'))
            r.add('%s: %s' % (fn, n), w, 'proved' if status == 'proved' else 'failed' if status == 'failed' else 'other', 'z3', t, detail)
    d = P.job([m.SEGMENT])[0]
    r.functions.append(m.SEGMENT + '.__init__')
    w = m.SEGMENT
    mine = lambda o: 'impedance model' in o or o == 'never fails'
    for ob, detail in d['fails'].items():
        if mine(ob):
            r.add('%s.__init__: %s' % (m.SEGMENT, ob), w, 'failed', 'PyVC', 0.0, detail, True)
    for ob in ('raises ValueError for more than one impedance model and only then', 'the impedance model given is held, none if none is given'):
        ok = not d['und'] and not any(mine(o) for o in d['fails']) and {'too many models', 'returns'} <= set(d['extra'])
        r.add('%s.__init__: %s' % (m.SEGMENT, ob), w, 'proved' if ok else 'other', 'PyVC: guarded effects compared for every combination of keyword states', d['time'], '; '.join(d['und'][:3]))
    K = m.cls(m.SEGMENT)
    for sub in m.subclasses(m.SEGMENT):
        for n in sorted(m.VIEWS):
            ok = inspect.getattr_static(m.cls(sub), n) is inspect.getattr_static(K, n)
            r.add('%s resolves to the same code in %s' % (n, sub), sub, 'proved' if ok else 'other', 'evaluation')
    r.vacuity = dict(reachability_checks=vac, constructor_paths=d['paths'], constructor_outcomes=d['extra'])
    r.assumptions = HEAP + ['the classes of per-length impedances are the sequence and the phase impedance (no others exist in the package)',
                            'removeLineSegments: the arguments are distinct segments currently linked to the impedance']
    r.trusted = TRUST + ['instances have the fields their constructors create (C04)']
    r.bounded = 'random histories of assignments through all views on small models'
    return r


WRT = ['attribute values are of the declared type; enumeration values are strings or None; UUIDs are strings',
       'all objects of the map are of one CIM version (an empty map is written with the CIM15 namespace)',
       'redeclared attributes are written once for each class that declares them']


def writer(prop, tier):
    """cimwrite, for an arbitrary map seen through an object of each class."""
    import model as m
    from . import wrtprove as P, src
    import PyCIM.RDFXMLWriter as M, types
    r = Result()
    rs = P.prove()
    for d in rs:
        w = 'PyCIM/RDFXMLWriter.py cimwrite'
        for ob, (detail, definite) in sorted(d['fails'].items()):
            r.add('object of class %s: %s' % (d['key'], ob), w, 'failed', 'PyVC', 0.0, detail, definite)
        if d['und']:
            r.add('object of class %s' % d['key'], w, 'other', 'PyVC', d['time'], '; '.join(d['und'][:3]))
        elif not d['fails']:
            r.add('object of class %s: one element with its UUID, %d properties written exactly when set with their value, nothing else, document frame, no exception, objects and map not modified' % (d['key'], d['props']), w,
                  'proved' if d['reached'] >= 3 else 'other', 'PyVC: guarded document compared for every combination of field states', d['time'])
            r.obligations[-1].count = 5 + d['props']
    fs = [f for f in vars(M).values() if isinstance(f, types.FunctionType) and src.in_repo(f) and f.__module__ == M.__name__]
    r.functions = sorted('RDFXMLWriter.%s' % f.__name__ for f in fs) + ['the reference getters of every class (inlined)']
    r.solver = sum(d['time'] for d in rs)
    r.assumptions = WRT
    r.trusted = TRUST[1:] + ['contract of XMLWriter: C11', 'instances have the fields their constructors create (C04)', 'spec/schema.json (checked against the code by C05)']
    r.vacuity = dict(classes=len(rs), paths=sum(d['paths'] for d in rs), documents_completed=sum(d['reached'] for d in rs))
    r.bounded = 'maps of generated objects written by the real code, parsed and compared with an independent reference'
    return r


XML = ['calls form a document: one root element, text only inside it, close with the identifier of an open element, ends as many as starts; the declaration, if any, first',
       'tags and attribute names are XML names the encoding can represent; text and attribute values are strings of characters XML allows, without carriage returns (and without tabs and line breaks in attribute values)',
       'one XMLWriter object used by one thread; attribute maps are dictionaries of strings; tag, text are given positionally or by the names they have now']


def xmlwriter(prop, tier):
    """Every method of XMLWriter from every abstract state."""
    from . import xmlprove as P, src
    import model, PyCIM.SimpleXMLWriter as M, types
    r = Result()
    p = P.prove()
    w = 'PyCIM/SimpleXMLWriter.py XMLWriter'
    for ob, (detail, definite) in sorted(p.fails.items()):
        r.add(ob, w, 'failed', 'PyVC', 0.0, detail, definite)
    for u in sorted(set(p.und)):
        r.add('invariant', w, 'other', 'PyVC', p.time, u)
    if not p.fails and not p.und:
        n = {}
        for c, k in p.counts.items():
            n[c] = k
        want = list(P.CALLS) + [('init', c) for c in P.CONFIGS]
        for c in want:
            what = {'init': 'establishes the invariant', 'close': 'every iteration ends the top element until the one identified is ended; keeps the invariant', 'flush': 'passes the output on; keeps the invariant'}.get(
                c[0], 'the events of the output are those asked for, the open elements match, keeps the invariant')
            r.add('%s: %s; never fails' % (' '.join(map(str, c)) if c[0] != 'init' else 'XMLWriter(%s, encoding %s)' % c[1], what), w, 'proved' if n.get(c) else 'other',
                  'PyVC: output parsed symbolically; states closed under all calls', p.time / len(want), '' if n.get(c) else 'no path returns')
            r.obligations[-1].count = max(1, n.get(c, 0))
    r.functions = sorted('XMLWriter.%s' % n for n, f in vars(M.XMLWriter).items() if isinstance(f, types.FunctionType)) + \
        sorted('SimpleXMLWriter.%s' % f.__name__ for f in vars(M).values() if isinstance(f, types.FunctionType) and f.__module__ == M.__name__)
    r.solver = p.time
    r.assumptions = XML
    r.trusted = TRUST[1:] + ['contract assumed of open and of the stream given: what is written is appended, characters the encoding lacks become references with errors=xmlcharrefreplace, flush passes it on',
                             'a parser of XML 1.0 decodes references, joins adjacent text and ignores white space outside the root']
    r.vacuity = dict(abstract_states=len(p.states), paths=p.paths, calls_returning={' '.join(map(str, c)): k for c, k in p.counts.items()})
    r.bounded = 'generated call sequences executed by the real code, the output parsed with ElementTree'
    return r


PP = ['nesting within the recursion limit of Python (parse and tostring of the library have the same limit)',
      'blank means: only characters Python counts as white space']


def pretty(prop, tier):
    """xmlpp and the functions it calls; recursion by contract."""
    from . import ppprove as P
    import model, types
    r = Result()
    p = P.prove()
    import PyCIM.PrettyPrintXML as M
    w = 'PyCIM/PrettyPrintXML.py'
    for ob, (detail, definite) in sorted(p.fails.items()):
        r.add(ob, w, 'failed', 'PyVC', 0.0, detail[:1500], definite)
    for u in sorted(set(p.und)):
        r.add('contracts', w, 'other', 'PyVC', p.time, u)
    if not p.fails and not p.und:
        for n, k in sorted(p.counts.items()):
            obs = [P.BLANK, P.STRUCT, P.NEVER] + ([P.RESULT] if n == 'xmlpp' else [P.REC])
            for ob in obs:
                r.add('%s: %s' % (n, ob), w, 'proved', 'PyVC: every assignment checked against the ghost original, loops from forgotten values, recursion by contract', p.time / len(p.counts) / len(obs))
        if 'xmlpp' not in p.counts:
            r.add('xmlpp returns', w, 'other', 'PyVC', p.time, 'no path returns')
    r.functions = sorted('PrettyPrintXML.%s' % f.__name__ for f in vars(M).values() if isinstance(f, types.FunctionType) and f.__module__ == M.__name__)
    r.solver = p.time
    r.assumptions = PP
    r.trusted = TRUST[1:] + ['contracts assumed of xml.etree: parse gives the tree of the document (no text after the root), tostring a well-formed document of exactly the tree, text and tail attributes are plain fields, iteration gives the children']
    r.vacuity = dict(paths=p.paths, returning_paths=p.counts)
    r.bounded = 'generated documents pretty printed by the real code and compared element by element'
    return r


RT = ['maps are keyed by the UUIDs of their objects and closed under to-one references; all objects are of classes of one class map',
      'values are of declared type; floats are not NaN; enumeration values are literals without "." (or None); text as in C11',
      'links written from their to-one end; many-to-many links and to-many references without inverse are not serialised',
      'int(str(x)) = x, float(str(x)) = x (shortest repr), bool by its name: properties of CPython']


def roundtrip(prop, tier):
    """Lemma over the contracts proved for C12, C11, C06-C09, C01, C15, C04, C05."""
    from . import rtprove as P
    import model
    r = Result()
    t0 = time.time()
    for d in P.DEPS:
        t = time.time()
        q = run(d, tier)
        n = sum(o.count for o in q.obligations)
        bad = [o for o in q.obligations if o.status != 'proved']
        r.add('the contracts of %s, which the lemma uses, are discharged (%d obligations)' % (d, n), d, 'proved' if n and not bad else 'failed' if any(o.status == 'failed' for o in bad) else 'other', 'all obligations of %s generated and discharged again' % d, time.time() - t,
              '; '.join(o.brief() for o in bad[:3]))
        r.functions += q.functions
        for a in q.assumptions:
            if a not in r.assumptions:
                r.assumptions.append(a)
    r.functions = sorted(set(r.functions))
    for o in P.ground():
        r.add(o[0], o[1], 'proved' if o[2] else 'other', 'evaluation', 0.0, o[3])
        if len(o) > 4:
            r.obligations[-1].count = o[4]
    r.solver, r.queries = 0.0, 0
    for n, st, t, detail in P.links():
        r.add(n, 'lemma', st, 'z3', t, detail)
        r.solver += t
        r.queries += 2
    r.assumptions = RT + r.assumptions
    r.trusted = TRUST + RDRTRUST[:2] + ['composition of the contracts: text(C12) = text written (C11) = text the reader gets; C12 names the property elements, C07/C08 say what a property element of that name does']
    r.vacuity = dict(dependencies=len(P.DEPS), hypotheses_of_each_z3_lemma='checked not unsat')
    r.bounded = 'models of all classes and profiles written and read back by the real code'
    return r


RUN = dict(C13=roundtrip, C14=pretty, C11=xmlwriter, C12=writer, C15=segment, C04=ctors, C06=reader, C07=reader, C08=reader, C09=reader, C10=reader, C01=accessors, C02=accessors, C03=accessors, C05=tables)


def bounded_only(prop, tier):
    r = Result('exploration')
    r.bounded = 'systematic small-scope and random executions of the real code against an independent reference'
    r.assumptions = ['bounded: nothing is proved here yet']
    r.trusted = ['the reference model in harness/']
    return r


def run(prop, tier):
    try:
        return RUN.get(prop, bounded_only)(prop, tier)
    except Exception:
        # code the prover cannot even load: the concrete side decides
        r = Result('proof' if prop in RUN else 'exploration')
        r.add('generation of obligations', prop, 'other', 'none', 0.0, traceback.format_exc()[-2500:])
        r.bounded = 'the concrete harness only'
        return r


def directed(prop, res, tier, seed, search):
    """Deeper concrete search after an obligation that was not discharged."""
    import mine
    mine.DEEP, mine.DEADLINE = True, time.time() + 75
    if res.only and prop in ('C01', 'C02', 'C03'):
        import accessors
        return accessors.search(prop, 'thorough', seed + 1, only=res.only[:60])
    return search('quick' if prop in ('C01', 'C02', 'C03') else 'thorough', seed + 1)
