"""Concrete cross-check and counterexample search for cimwrite (C12) and the
write/read round trip (C13)."""
import io, os, random, tempfile
import xml.etree.ElementTree as ET
import model, docs
import mine
from docs import RDF, compare, Spec

MAIN = ['CIM14', 'CIM15']
PROFS = sorted(model.PROFILES)
VALS = {'str': ['v', '', 'a<b>&"c"', "it's", 'Ä€ 日本', ' lead', 'two\nlines', ']]>', 'None', '0', 'True', '\U0001f600', 'x' * 30],
        'int': [0, 1, -7, 123456789012345678901, 42, 2 ** 53 + 1], 'float': [0.0, 1.5, 1234567.8901234, 0.30000000000000004, 5e-324, -0.0, 1e16, 123456789.0, -2.25, 1e-7, 0.1, 1e300, 3.0, float('inf'), 1 / 3],
        'bool': [True, False]}


def published(key, a, rng):
    """The default the class publishes, or the one its instances have."""
    K = model.cls(key)
    ds = [c._defaults[a] for c in K.__mro__ if a in c.__dict__.get('_defaults', {})]
    return rng.choice(ds) if ds and rng.random() < .7 else getattr(K(), a, None)


def mined(rng, typ):
    m = mine.package()
    return rng.choice(m.texts) if typ == 'str' else rng.choice(m.nums or [0]) if typ == 'int' else rng.choice(m.fnums or [0.0]) if typ == 'float' else rng.choice([True, False])


def gen(rng, p, n, full=False, links=True):
    """A model as plain data: [key, uuid, {attr: value}], [holder, ref, target]."""
    objs, links_ = [], []
    pc = sorted(docs.profile_classes(p).values())
    if full:
        keys = pc
    else:
        keys = [rng.choice(pc) for _ in range(n)]
    if links and not full:
        els, ks = docs.gen_links(rng, p, n)
        for e in els:
            for k in e.kids:
                links_.append([e.id, k[1].rsplit('.')[-1], k[2]])
        objs = [[k, e.id, {}] for e, k in zip(els, ks)]
        keys = keys[:n // 3]
    for i, k in enumerate(keys):
        objs.append([k, rng.choice(['_o%d', 'u-%d', 'Ä&<%d', 'sp ace%d']) % i, {}])
        if mine.lucky(rng, .05):
            u = rng.choice(mine.package().attr_texts)
            if u and all(u != x[1] for x in objs):
                objs[-1][1] = u
    for k, u, at in objs:
        pr = 1.0 if full else rng.choice([0, .3, .8])
        for a, (dk, s) in model.all_attrs(k).items():
            if a == 'UUID' or rng.random() > pr:
                continue
            if s[3]:
                at[a] = rng.choice(docs.enum_literals(k, s[3]))
            else:
                at[a] = mined(rng, s[1]) if mine.lucky(rng, .1) else rng.choice(VALS[s[1]])
                if rng.random() < .08:
                    v = published(k, a, rng)
                    at[a] = v if type(v) is type(at[a]) else at[a]
    return objs, links_


def build(objs, links):
    d = {}
    spec = {}
    for k, u, at in objs:
        d[u] = model.cls(k)(UUID=u)
        spec[u] = Spec(k)
        spec[u].attrs['UUID'] = u
        for a, v in at.items():
            setattr(d[u], a, v)
            spec[u].attrs[a] = v
    for a, r, b in links:
        cur = getattr(d[a], r)
        if isinstance(cur, list):
            getattr(d[a], 'add' + r)(d[b])
        elif cur is None:
            setattr(d[a], r, d[b])
        docs.link(spec, a, r, b)
    return d, spec


def write(d, form='text', encoding=None):
    from PyCIM.RDFXMLWriter import cimwrite
    kw = {} if encoding is None else dict(encoding=encoding)
    if form == 'text':
        s = io.StringIO()
        cimwrite(d, s, **kw)
        return s.getvalue()
    fd, p = tempfile.mkstemp(suffix='.xml')
    os.close(fd)
    try:
        cimwrite(d, p, **kw)
        with open(p, 'rb') as f:
            return f.read()
    finally:
        os.unlink(p)


def expect_doc(spec, version, omit=()):
    """Expected content: list of (class tag, id, sorted property elements)."""
    ns = model.PROFILES[version]['nsURI'] + '#'
    out = []
    for u, s in spec.items():
        if u in omit:
            continue
        props = []
        for k in model.mro(s.key):
            cn = k.rpartition('.')[2]
            if cn == 'Element':
                continue
            for a, typ, dflt, en in model.CLASSES[k]['attrs']:
                v = s.attrs[a]
                if en:
                    if v is not None:
                        props.append(('{%s}%s.%s' % (ns, cn, a), '', (('{%s}resource' % RDF, '%s%s.%s' % (ns, en, v)),)))
                elif v != dflt:
                    props.append(('{%s}%s.%s' % (ns, cn, a), str(v), ()))
            for r, many, t, inv in model.CLASSES[k]['refs']:
                if not many and s.refs[r] is not None:
                    props.append(('{%s}%s.%s' % (ns, cn, r), '', (('{%s}resource' % RDF, '#%s' % spec[s.refs[r]].attrs['UUID']),)))
        out.append(('{%s}%s' % (ns, s.key.rpartition('.')[2]), u, sorted(props)))
    return sorted(out)


def got_doc(data):
    root = ET.fromstring(data)
    if root.tag != '{%s}RDF' % RDF or root.attrib:
        raise ValueError('root element is %s %s' % (root.tag, root.attrib))
    if (root.text or '').strip():
        raise ValueError('text in the root element: %r' % root.text)
    out = []
    for e in root:
        if list(e.attrib) != ['{%s}ID' % RDF]:
            raise ValueError('attributes of %s: %s' % (e.tag, e.attrib))
        if (e.text or '').strip() or (e.tail or '').strip():
            raise ValueError('stray text at %s' % e.tag)
        props = []
        for c in e:
            if len(c) or (c.tail or '').strip():
                raise ValueError('stray content at %s' % c.tag)
            props.append((c.tag, c.text or '', tuple(sorted(c.attrib.items()))))
        out.append((e.tag, e.get('{%s}ID' % RDF), sorted(props)))
    return sorted(out)


def dump(d):
    out = []
    for k, o in d.items():
        out.append((k, id(o), type(o), sorted((n, [id(x) for x in v] if isinstance(v, list) else v if isinstance(v, (str, int, float, bool, type(None))) else id(v)) for n, v in vars(o).items())))
    return out


def tables(d):
    """What the classes of the objects publish."""
    ks = {k for o in d.values() for k in type(o).__mro__ if k is not object}
    return {k: repr([k.__dict__.get(n) for n in ('_attrs', '_attr_types', '_defaults', '_enums', '_refs', '_many_refs')]) for k in ks}


def run12(c):
    d, spec = build(c['objs'], c['links'])
    before = dump(d)
    m = {u: o for u, o in d.items() if u not in c.get('omit', [])}
    if c.get('rekey'):
        m = {'k:' + u: o for u, o in m.items()}
    keep = list(m.items())
    tabs = tables(d)
    try:
        data = write(m, c.get('form', 'text'), c.get('encoding'))
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e), ''
    if repr(dump(d)) != repr(before):
        x = [(a, b) for a, b in zip(before, dump(d)) if repr(a) != repr(b)]
        return 'the model was modified: %s' % (str(x)[:300]), ''
    if tables(d) != tabs:
        return 'the tables of a class were modified', ''
    if list(m.items()) != keep:
        return 'the map was modified', ''
    try:
        got = got_doc(data)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e), str(data)[:2000]
    want = expect_doc(spec, c['profile'].split('.')[0] if m else 'CIM15', c.get('omit', []))
    if got != want:
        for g, w in zip(got, want):
            if g[:2] != w[:2]:
                return 'element %s, expected %s' % (g[:2], w[:2]), str(data)[:2000]
            if g[2] != w[2]:
                return '%s %s: unexpected %s, missing %s' % (g[0].split('}')[1], g[1], [x for x in g[2] if x not in w[2] or g[2].count(x) > w[2].count(x)][:2], [x for x in w[2] if x not in g[2]][:2]), str(data)[:2000]
        return '%d elements, expected %d' % (len(got), len(want)), str(data)[:2000]
    return None


def run13(c):
    d, spec = build(c['objs'], c['links'])
    p = c['profile']
    kw = {}
    if p not in MAIN or c.get('explicit'):
        import importlib
        kw = dict(packageMap=importlib.import_module(p).packageMap, nsURI=model.PROFILES[p.split('.')[0]]['nsURI'])
    try:
        data = write(d, c.get('form', 'text'), c.get('encoding'))
        from PyCIM.RDFXMLReader import cimread
        if isinstance(data, str):
            got = cimread(io.StringIO(data), **kw)
        else:
            got = cimread(io.BytesIO(data), **kw)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e), ''
    for s in spec.values():         # many-to-many links and unidirectional lists are not serialised
        for n, v in s.refs.items():
            if isinstance(v, list):
                r = model.all_refs(s.key)[n][1]
                if model.kind(s.key, r) in ('nn', 'um'):
                    s.refs[n] = []
    m = compare(got, spec)
    return (m, str(data)[:2000]) if m else None


RUN = {'C12': run12, 'C13': run13}


def cases(prop, rng, tier):
    for p in PROFS:
        for i in range(2 if tier == 'quick' else 10):
            o, l = gen(rng, p, 0, full=True)
            yield dict(objs=o, links=l, profile=p)
    yield dict(objs=[], links=[], profile='CIM15')
    for p in PROFS:                     # every to-one reference
        o, l = [], []
        pr = docs.profile_refs(p)
        for n, (r, hs, ts) in enumerate(pr):
            if not r.many:
                k = rng.choice(hs)
                t = rng.choice(ts)
                o += [[k, '_a%d' % n, {}], [t, '_b%d' % n, {}]]
                l.append(['_a%d' % n, r.name, '_b%d' % n])
        rng.shuffle(o)
        yield dict(objs=o, links=l, profile=p)
    for i in range(2500 if tier == 'quick' else 40000):
        p = rng.choice(PROFS + MAIN * 4)
        sizes = mine.package().sizes
        o, l = gen(rng, p, rng.choice(sizes) if sizes and mine.lucky(rng, .01) else rng.choice([1, 2, 4, 9, 25]))
        rng.shuffle(o)
        f = rng.choice(['text', 'text', 'path'])
        omit = [x[1] for x in o if rng.random() < .2] if prop == 'C12' and rng.random() < .4 else []
        yield dict(objs=o, links=l, profile=p, form=f, omit=omit, rekey=rng.random() < .1, explicit=rng.random() < .3,
                   encoding=rng.choice([None, 'utf-8', 'us-ascii', 'iso-8859-1']) if f == 'path' else rng.choice([None, 'utf-8']))


def shrink(prop, c):
    r = RUN[prop](c)
    n = 0
    step = max(1, len(c['objs']) // 2)
    while step and n < 300:
        i = 0
        while i < len(c['objs']) and n < 300:
            t = c['objs'][:i] + c['objs'][i + step:]
            ids = {x[1] for x in t}
            t = dict(c, objs=t, links=[x for x in c['links'] if x[0] in ids and x[2] in ids])
            n += 1
            q = RUN[prop](t)
            if q:
                c, r = t, q
            else:
                i += step
        step //= 2
    for j in range(len(c['objs'])):
        for a in list(c['objs'][j][2]):
            o = [list(x) for x in c['objs']]
            o[j][2] = {k: v for k, v in o[j][2].items() if k != a}
            t = dict(c, objs=o)
            n += 1
            if n > 600:
                break
            q = RUN[prop](t)
            if q:
                c, r = t, q
    return dict(case=c, msg=r[0], text='%s; links %s; %s' % (c['objs'], c['links'], r[1]))


def job(a):
    import logging
    logging.disable(logging.CRITICAL)
    prop, tier, seed, i, n = a
    rng = random.Random('%s/%s' % (seed, prop))
    cnt, out = 0, []
    for j, c in enumerate(cases(prop, rng, tier)):
        if j % n != i:
            continue
        if mine.late():
            break
        cnt += 1
        if RUN[prop](c):
            out.append(shrink(prop, c))
            break
    return cnt, out


def search(prop, tier, seed, procs=8):
    from accessors import pool_run
    model.preload()
    return pool_run(job, [(prop, tier, seed, i, 16) for i in range(16)], procs)


def replay(prop, v):
    return RUN[prop](v['case'])
