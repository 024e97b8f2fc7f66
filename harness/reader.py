"""Concrete cross-check and counterexample search for cimread."""
import random
import model, docs, general, mine
from docs import El, render, expected, compare, read, RDF

PROFS = sorted(model.PROFILES)
MAIN = ['CIM14', 'CIM15']


def kwargs(p):
    """Explicit arguments for a profile."""
    import importlib
    m = importlib.import_module(p)
    return dict(packageMap=m.packageMap, nsURI=m.nsURI)


def run(case):
    """None or (message, text). case is plain data."""
    if case.get('general'):
        return general.run(case, case.get('prop'))
    if 'same_path' in case:
        return general.same_path(case['same_path'])
    els = [El(c, i, [tuple(k) for k in ks], idk, ns) for c, i, ks, idk, ns in case['els']]
    p = case['profile']
    pm = model.PROFILES[p]['packageMap']
    uri = case.get('uri') or model.PROFILES[p]['nsURI']
    text = render(els, uri, case.get('opts'))
    kw = kwargs(p) if case.get('explicit') else {}
    if case.get('explicit') and case.get('uri'):
        kw['nsURI'] = uri
    start, sspec = None, None
    if case.get('start') is not None:
        start, sspec = build_start(case['start'])
        kw['start_dict'] = start
        keep = dict(start)
    try:
        want = expected(els, pm if not case.get('nothing') else {}, sspec)
    except Exception as e:
        raise AssertionError('oracle: %r' % e)
    try:
        for f in case.get('before', []):
            run(f)
        got = read(text, case.get('form', 'bytes'), **kw)
        if case.get('start') is not None:
            if got is not start:
                return 'the start dictionary is not the map returned', text
            redefined = {e.id for e in els if e.idk == 'ID' and e.ns == 'cim' and e.cls in pm}
            for k in keep:
                if k not in redefined and got.get(k) is not keep[k]:
                    return 'entry %s of the start dictionary was replaced' % k, text
        m = compare(got, want, tuple(case.get('parts', ('ids', 'attrs', 'refs'))))
        if m:
            return m, text
        if case.get('twice'):
            got2 = read(text, case['twice'], **({k: v for k, v in kw.items() if k != 'start_dict'}))
            m = compare(got2, want, tuple(case.get('parts', ('ids', 'attrs', 'refs'))))
            if m:
                return 'second read: ' + m, text
            for i in got2:
                if got2[i] is got.get(i):
                    return 'two reads share the object %s' % i, text
            m = compare(got, want, tuple(case.get('parts', ('ids', 'attrs', 'refs'))))
            if m:
                return 'first result changed by the second read: ' + m, text
    except AssertionError:
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        return '%s: %s (%s)' % (type(e).__name__, e, ', '.join('%s:%d' % (x.name, x.lineno) for x in tb[-2:])), text
    return None


def build_start(spec):
    d, s = {}, {}
    for key, i, attrs in spec:
        d[i] = model.cls(key)(UUID=i)
        s[i] = docs.Spec(key)
        s[i].attrs['UUID'] = i
        for n, v in attrs.items():
            setattr(d[i], n, v)
            s[i].attrs[n] = v
    return d, s


def mk(els, p, **kw):
    return dict(els=[e.data() for e in els], profile=p, explicit=p not in MAIN, **kw)


def all_classes_doc(rng, p, kids=True):
    els = []
    for n, (c, k) in enumerate(sorted(docs.profile_classes(p).items())):
        els.append(El(c, '_%d' % n, docs.attr_kids(rng, k, 1.0) if kids else []))
    return els


def small_doc(rng, p, n=6, about=.2):
    pc = sorted(docs.profile_classes(p).items())
    els = []
    for i in range(n):
        c, k = rng.choice(pc)
        els.append(El(c, docs.ident(rng, i), docs.attr_kids(rng, k, rng.choice([.2, .6])), 'about' if rng.random() < about else 'ID'))
    return els


def c06_cases(rng, tier):
    N = 60 if tier == 'quick' else 1500
    for p in PROFS:
        e = all_classes_doc(rng, p, False)
        yield mk(e, p, parts=['ids'])
        rng.shuffle(e)
        for x in e[::3]:
            x.idk = 'about'
        yield mk(e, p, parts=['ids'])
    for i in range(N):
        p = rng.choice(PROFS + MAIN * 3)
        els = small_doc(rng, p, rng.choice([0, 1, 2, 5, 9, 40]), about=rng.choice([0, .3, 1]))
        pc = docs.profile_classes(p)
        c = mk(els, p, parts=['ids'])
        if rng.random() < .5:
            st = []
            for j in range(rng.randrange(4)):
                cn, k = rng.choice(sorted(pc.items()))
                st.append([k, '_s%d' % j, {}])
                if rng.random() < .6:
                    els.insert(rng.randrange(len(els) + 1), El(cn, '_s%d' % j, [('text', 'IdentifiedObject.name', 'n')], rng.choice(['about', 'about', 'ID'])))
            c = mk(els, p, parts=['ids'], start=st)
        if els and rng.random() < .5:       # describe an element of the document again, in either order
            x = rng.choice(els)
            if x.idk == 'ID':
                els.insert(rng.randrange(els.index(x) + 1, len(els) + 1), El(x.cls, x.id, [], 'about'))
            c = dict(c, els=[e.data() for e in els])
        c['form'] = rng.choice(['bytes', 'path'])
        yield c


def c07_cases(rng, tier):
    for p in PROFS:
        for i in range(2 if tier == 'quick' else 12):
            yield mk(all_classes_doc(rng, p), p, parts=['attrs'])
    for i in range(60 if tier == 'quick' else 1500):
        p = rng.choice(PROFS + MAIN * 3)
        els = small_doc(rng, p, rng.choice([1, 3, 8, 30]))
        c = mk(els, p, parts=['attrs'], opts=dict(nl=rng.choice(['\n', '', '\n    '])))
        if rng.random() < .4 and els:       # split the description over several elements
            x = rng.choice(els)
            if x.kids:
                h = len(x.kids) // 2
                y = El(x.cls, x.id, x.kids[h:], 'about')
                x.kids = x.kids[:h]
                x.idk = 'ID'
                els.insert(rng.randrange(els.index(x) + 1, len(els) + 1), y)
                c = dict(c, els=[e.data() for e in els])
        if rng.random() < .4:
            pc = sorted(docs.profile_classes(p).items())
            cn, k = rng.choice(pc)
            at = {n: {'str': 'kept', 'int': 99, 'float': 9.5, 'bool': True}[a[1]] for n, (dk, a) in model.all_attrs(k).items() if n != 'UUID' and rng.random() < .5}
            els.append(El(cn, '_st', docs.attr_kids(rng, k, .4), 'about'))
            c = dict(c, els=[e.data() for e in els], start=[[k, '_st', at]])
        yield c


def c08_cases(rng, tier):
    for p in PROFS:
        pr = docs.profile_refs(p)
        for i in range(3 if tier == 'quick' else 20):
            els, ks = docs.gen_links(rng, p, 0, want=rng.sample(pr, len(pr)))
            yield mk(els, p, parts=['refs'])
        # one pair per reference, every way to state it, both orders
        for mode in range(6):
            els = []
            for n, (r, hs, ts) in enumerate(pr):
                a, b = El(r.key.rpartition('.')[2], '_a%d' % n), None
                kb = rng.choice(ts)
                b = El(kb.rpartition('.')[2], '_b%d' % n)
                if mode % 3 in (0, 2):
                    a.kids.append(('ref', docs.tag(r), b.id))
                if mode % 3 in (1, 2) and r.inv:
                    b.kids.append(('ref', docs.inv_tag(r, kb), a.id))
                if r.inv in model.views(kb) and r.inv[0] != r.key.rpartition('.')[2][9]:
                    continue
                els += [a, b] if mode < 3 else [b, a]
            yield mk(els, p, parts=['refs'])
    for i in range(150 if tier == 'quick' else 4000):
        p = rng.choice(PROFS + MAIN * 4)
        els, ks = docs.gen_links(rng, p, rng.choice([1, 2, 5, 20]))
        c = mk(els, p, parts=['refs'])
        if rng.random() < .3 and els:
            x = rng.choice(els)
            i = els.index(x)
            c = dict(c, start=[[ks[i], x.id, {}]])
            x.idk = 'about'
            c = dict(c, els=[e.data() for e in els])
        yield c


def size_cases(rng, tier):
    """Documents of the sizes the code mentions: long lists, many objects, much
    unknown content before what matters."""
    sizes = mine.package().sizes + ([20, 70, 300] if mine.DEEP else [])
    for s in sizes:
        for p in MAIN:
            pr = docs.profile_refs(p)
            for kind in ('1n', 'nn', 'um', 'n1'):
                rs = [x for x in pr if x[0].kind == kind]
                if not rs:
                    continue
                r, hs, ts = rng.choice(rs)
                kb = rng.choice(ts)
                a = [El(r.key.rpartition('.')[2], '_a%d' % i) for i in range(2)]
                b = [El(kb.rpartition('.')[2], '_b%d' % i) for i in range(s)]
                if r.inv in model.views(kb):
                    continue
                if kind == 'n1':
                    a = [El(r.key.rpartition('.')[2], '_a%d' % i) for i in range(s)]
                    for x in a:
                        x.kids.append(('ref', docs.tag(r), '_b0'))
                    b = b[:1]
                else:
                    a[0].kids += [('ref', docs.tag(r), x.id) for x in b]
                els = a + b
                yield mk(els, p)
                yield mk(els[::-1], p)
        for p in MAIN:
            els = rng.sample(all_classes_doc(rng, p), 3)
            for e in els:
                e.kids[:0] = [('text', 'Nothing.noSuchAttribute%d' % i, 'x') for i in range(s)] + [('ref', 'Nothing.No', '_none%d' % i) for i in range(s)]
            yield mk([docs.unknown_el(rng, i) for i in range(s)] + els, p)


def c09_cases(rng, tier):
    uris = {'CIM14': ['http://iec.ch/TC57/2009/CIM-schema-cim14'],
            'CIM15': ['http://iec.ch/TC57/2010/CIM-schema-cim15', 'http://iec.ch/TC57/2013/CIM-schema-cim16', 'http://iec.ch/TC57/2011/CIM-schema-cim17', 'urn:something',
                      'http://iec.ch/TC57/2009/CIM-schema-cim14x', 'http://iec.ch/TC57/2009/CIM-schema-cim14/', 'http://example.org/ns/', 'urn:a#b', 'urn:a##',
                      'HTTP://IEC.CH/TC57/2009/CIM-SCHEMA-CIM14', 'https://iec.ch/TC57/2009/CIM-schema-cim14', 'http://iec.ch/TC57/2013/CIM-schema-cim16/x?y=cim14']}
    for p, us in uris.items():
        for u in us:
            for form in ('bytes', 'text', 'path', 'file'):
                for rdf in ('rdf', 'rdf'):
                    yield mk(small_doc(rng, p, 5), p, uri=u, form=form, opts=dict(decl=form != 'text'), twice=rng.choice(['bytes', 'path']))
            els, _ = docs.gen_links(rng, p, 6)
            yield mk(els, p, uri=u, form='file', twice='path')
            yield mk(els, p, uri=u, form='file', opts=dict(rdfns='http://example.org/other-rdf#'))
            yield mk(els, p, uri=u, opts=dict(wrap='Wrapper'))
    yield mk(small_doc(rng, 'CIM15', 4), 'CIM15', opts=dict(cim='c'), nothing=True)     # no prefix 'cim': no element is read
    for p in PROFS:
        for u in (None, 'urn:my:ns'):
            c = mk(small_doc(rng, p, 5), p, twice='path')
            c.update(explicit=True, opts=dict(cim=rng.choice(['cim', 'c14', 'x'])))
            if u:
                c['uri'] = u
            yield c
    for p, q in (('CIM14', 'CIM15'), ('CIM15', 'CIM14'), ('CIM15', 'CIM15')):
        els, _ = docs.gen_links(rng, p, 6)
        e2, _ = docs.gen_links(rng, q, 6)
        yield mk(els, p, before=[mk(e2, q), mk(els, p)], twice='bytes')
    for i in range(0 if tier == 'quick' else 300):
        p = rng.choice(MAIN)
        els, _ = docs.gen_links(rng, p, rng.randrange(1, 12))
        yield mk(els, p, uri=rng.choice(uris[p]), form=rng.choice(['bytes', 'path', 'file']), twice='bytes',
                 before=[mk(small_doc(rng, q, 3), q) for q in rng.sample(PROFS, 2)])


def c10_cases(rng, tier):
    for i in range(250 if tier == 'quick' else 5000):
        p = rng.choice(PROFS + MAIN * 5)
        els, ks = docs.gen_links(rng, p, rng.choice([0, 1, 3, 10, 40]))
        for e, k in zip(els, ks):
            e.kids += docs.attr_kids(rng, k, .3)
            rng.shuffle(e.kids)
        for e in els:
            for _ in range(rng.choice([0, 0, 1, 2, 4])):
                e.kids.insert(rng.randrange(len(e.kids) + 1), docs.junk_kid(rng))
            if rng.random() < .3:      # dangling references of the object's own class
                k = ks[els.index(e)]
                rs = [(n, dk) for n, (dk, r) in model.all_refs(k).items()]
                if rs:
                    n, dk = rng.choice(rs)
                    e.kids.insert(rng.randrange(len(e.kids) + 1), ('ref', dk.rpartition('.')[2] + '.' + n, '_dangling%d' % rng.randrange(3)))
        for j in range(rng.choice([0, 1, 2, 6])):
            f = rng.choice([docs.junk_el, docs.unknown_el])
            els.insert(rng.randrange(len(els) + 1), f(rng, j))
            ks = None if ks is None else ks
        yield mk(els, p)


CASES = {'C06': c06_cases, 'C07': c07_cases, 'C08': c08_cases, 'C09': c09_cases, 'C10': c10_cases}


def value_error_cases():
    """C09: giving only one of packageMap and nsURI raises ValueError."""
    els = [El('Terminal', '_1')]
    text = render(els, model.PROFILES['CIM15']['nsURI'])
    k = kwargs('CIM15')
    for kw in (dict(packageMap=k['packageMap']), dict(nsURI=k['nsURI']), dict(packageMap=k['packageMap'], start_dict={}), dict(nsURI='urn:x', start_dict={})):
        try:
            read(text, 'bytes', **kw)
            return 'giving only %s is accepted' % [x for x in kw if x != 'start_dict'][0], text
        except ValueError:
            pass
        except Exception as e:
            return 'giving only %s raises %s' % ([x for x in kw if x != 'start_dict'][0], type(e).__name__), text
    return None


def shrink(case):
    if case.get('general'):
        return dict(general.shrink(case, case['prop']))
    if 'same_path' in case:
        r = run(case)
        return dict(case=case, msg=r[0], text=r[1])
    best, r = case, run(case)
    els = list(case['els'])
    n = 0
    step = max(1, len(els) // 2)
    while step and n < 400:
        i = 0
        while i < len(els) and n < 400:
            t = els[:i] + els[i + step:]
            n += 1
            c = dict(best, els=t)
            q = run(c)
            if q:
                els, best, r = t, c, q
            else:
                i += step
        step //= 2
    for j in range(len(els)):
        i = 0
        while i < len(best['els'][j][2]) and n < 700:
            e = list(best['els'][j])
            e[2] = e[2][:i] + e[2][i + 1:]
            c = dict(best, els=best['els'][:j] + [e] + best['els'][j + 1:])
            n += 1
            q = run(c)
            if q:
                best, r = c, q
            else:
                i += 1
    return dict(case=best, msg=r[0], text=r[1])


def cases(prop, rng, tier):
    yield from size_cases(rng, tier)
    yield from CASES[prop](rng, tier)
    for i in range(NGEN if tier == 'quick' else 40 * NGEN):
        yield dict(general.gen(rng, prop), prop=prop)
    if prop == 'C09':
        for i in range(60 if tier == 'quick' else 1000):
            yield dict(same_path=rng.randrange(1 << 30))


NGEN = 8000


def job(a):
    prop, tier, seed, i, n = a
    import logging
    logging.disable(logging.CRITICAL)
    rng = random.Random('%s/%s' % (seed, prop))
    cnt, out = 0, []
    for j, c in enumerate(cases(prop, rng, tier)):
        if j % n != i:
            continue
        if mine.late():
            break
        cnt += 1
        r = run(c)
        if r:
            out.append(shrink(c))
            if len(out) > 1:
                break
    return cnt, out


def search(prop, tier, seed, procs=8):
    from accessors import pool_run
    model.preload()
    n, out = pool_run(job, [(prop, tier, seed, i, 16) for i in range(16)], procs)
    if prop == 'C09':
        r = value_error_cases()
        n += 4
        if r:
            out.append(dict(case='value_error', msg=r[0], text=r[1]))
    return n, out


def replay(v):
    import logging
    logging.disable(logging.CRITICAL)
    if v['case'] == 'value_error':
        return value_error_cases()
    return run(v['case'])
