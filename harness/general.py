"""General documents for cimread: arbitrary sequences of identified elements,
properties in any order and number, conflicting and repeated references, start
dictionaries with linked objects, unknown and dangling content, nested foreign
elements, byte-wise delivery.  The oracle applies the statements of C06-C10 in
document order with the association semantics of C01-C03."""
import io, os, random, tempfile
from xml.sax.saxutils import escape, quoteattr
import model, docs, mine
from docs import Spec, RDF

PROFS = sorted(model.PROFILES)
MAIN = ['CIM14', 'CIM15']


# ------------------------------------------------------- association semantics
def slot(key, n):
    return 'PerLengthImpedance' if n in model.views(key) else n


def rdecl(key, n):
    return model.all_refs(key)[n][1]


def view(d, i, n):
    """Value of a to-one reference as the property shows it."""
    s = d[i]
    if n in model.views(s.key):
        v = s.refs['PerLengthImpedance']
        if n == 'PerLengthImpedance' or v is None:
            return v
        return v if d[v].key.rpartition('.')[2] == 'PerLength' + n else None
    return s.refs[n]


def drop(d, i, n, j):
    n = slot(d[i].key, n)
    v = d[i].refs[n]
    if isinstance(v, list):
        if j in v:
            v.remove(j)
    elif v == j:
        d[i].refs[n] = None


def put(d, i, n, j):
    n = slot(d[i].key, n)
    v = d[i].refs[n]
    if isinstance(v, list):
        if j not in v:
            v.append(j)
    else:
        d[i].refs[n] = j


def inv_of(d, i, n, j):
    return rdecl(d[i].key, n)[3]


def link(d, i, n, j):
    """i.n = j or i.addn(j)."""
    inv = inv_of(d, i, n, j)
    n = slot(d[i].key, n)
    old = d[i].refs[n]
    if old is not None and not isinstance(old, list):
        if inv is not None:
            drop(d, old, rdecl_inv(d, i, n, old), i)
        d[i].refs[n] = None
    if inv is not None:
        m = slot(d[j].key, inv)
        h = d[j].refs[m]
        if not isinstance(h, list) and h is not None:
            drop(d, h, rdecl_inv(d, j, m, h), j)
            d[j].refs[m] = None
        put(d, j, m, i)
    put(d, i, n, j)


def rdecl_inv(d, i, n, j):
    """Name of the reference of j that is inverse to i.n."""
    if n in model.views(d[i].key):
        return 'LineSegments'
    return rdecl(d[i].key, n)[3]


# ------------------------------------------------------------------ the oracle
def expected(els, pmap, start):
    d = {i: s for i, s in start.items()}
    for e in els:
        if e['ns'] != 'cim' or e['cls'] not in pmap:
            continue
        i = e['id']
        if e['idk'] == 'about' and i in d:
            continue
        if i in d:      # the object of the start dictionary leaves the map
            if i in start and d[i] is start[i]:
                d['old:' + i] = d[i]
                for s in d.values():
                    for n, v in s.refs.items():
                        if isinstance(v, list):
                            s.refs[n] = ['old:' + i if x == i else x for x in v]
                        elif v == i:
                            s.refs[n] = 'old:' + i
        d[i] = Spec(pmap[e['cls']] + '.' + e['cls'])
        d[i].attrs['UUID'] = i
    for e in els:
        i = e['id']
        if e['ns'] != 'cim' or i not in d:
            continue
        s = d[i]
        attrs, refs = model.all_attrs(s.key), model.all_refs(s.key)
        for k in e['kids']:
            n = k[1].rsplit('.')[-1]
            if k[0] == 'text' and n in attrs and n != 'UUID':
                s.attrs[n] = docs.convert(attrs[n][1][1], k[2])
            elif k[0] == 'enum' and n in attrs:
                s.attrs[n] = k[3]
            elif k[0] == 'ref' and n in refs and k[2] in d:
                if not refs[n][1][1] and view(d, i, n) is not None:
                    continue
                link(d, i, n, k[2])
    for s in d.values():
        if model.views(s.key):
            i = [k for k, x in d.items() if x is s][0]
            vs = {n: view(d, i, n) for n in ('SequenceImpedance', 'PhaseImpedance')}
            s.refs.update(vs)
    return d


# ------------------------------------------------------------------- rendering
def render(els, cim, o):
    r, c, x = o['rdf'], o['cim'], o['ext']
    nl = o['nl']
    w = []
    if o['decl']:
        w.append('<?xml version="1.0" encoding="utf-8"?>\n')
    if o['lead']:
        w.append(o['lead'])
    ext = o.get('exturi', 'http://example.com/ext#').replace('CI_', cim[:-1] + 'X').replace('CIM', cim)
    ext = ext if ext not in (cim + o['hash'], o['rdfns']) else 'http://example.com/ext#'
    decl = ['xmlns:%s="%s"' % (r, o['rdfns']), 'xmlns:%s="%s%s"' % (c, cim, o['hash']), 'xmlns:%s="%s"' % (x, ext)]
    inner = ''
    if o.get('inner'):
        inner = ' ' + decl.pop(1)
    decl += ['xmlns:%s="%s"' % tuple(x) for x in o.get('more', ())]
    if o['order']:
        decl.reverse()
    w.append('<%s:RDF %s>%s' % (r, ' '.join(decl), nl))

    def foreign(t):
        name, text, kids = t
        return '<%s:%s>%s%s</%s:%s>' % (x, name, escape(text), ''.join(foreign(k) for k in kids), x, name)
    for e in els:
        p = c if e['ns'] == 'cim' else x
        w.append('<%s:%s%s %s:%s=%s>' % (p, e['cls'], inner, r, e['idk'], quoteattr(e['id'] if e['idk'] == 'ID' else '#' + e['id'])) + nl)
        for k in e['kids']:
            kind = k[0]
            if kind == 'text':
                w.append('<%s:%s%s>%s</%s:%s>' % (c, k[1], ' %s:extra="1"' % x if o['xattr'] else '', escape(k[2]), c, k[1]) if k[2] else '<%s:%s/>' % (c, k[1]))
            elif kind == 'ftext':
                w.append('<%s:%s>%s</%s:%s>' % (x, k[1], escape(k[2]), x, k[1]))
            elif kind == 'ftree':
                w.append(foreign(k[2]))
            elif kind == 'comment':
                w.append('<!-- %s --><?pi some?>' % k[1])
            elif kind in ('ref', 'fref'):
                w.append('<%s:%s %s:resource=%s%s' % (c if kind == 'ref' else x, k[1], r, quoteattr('#' + k[2]), '/>' if o['short'] else '></%s:%s>' % (c if kind == 'ref' else x, k[1])))
            elif kind in ('enum', 'fenum'):
                w.append('<%s:%s %s:resource=%s/>' % (c if kind == 'enum' else x, k[1], r, quoteattr('%s%s%s.%s' % (cim, o['hash'], k[2], k[3]))))
            w.append(nl)
        w.append('</%s:%s>%s' % (p, e['cls'], nl))
    w.append('</%s:RDF>' % r)
    if o['trail']:
        w.append(o['trail'])
    return ''.join(w)


class Trickle(io.BytesIO):
    step = 1

    def read(self, n=-1):
        return io.BytesIO.read(self, self.step if n < 0 or n > self.step else n) if n != 0 else b''


class Duck:
    """The least a seekable stream is: read, seek, tell and seekable."""

    def __init__(s, data):
        s.f = io.BytesIO(data)

    def read(s, n=-1):
        return s.f.read(n)

    def seek(s, pos, whence=0):
        return s.f.seek(pos, whence)

    def tell(s):
        return s.f.tell()

    def seekable(s):
        return True


# ------------------------------------------------------------------- generator
INTS = ['0', '1', '-7', '42', '9007199254740993', '-123456789012345678901', ' 5 ', '+3', '007', '2147483648']
FLOATS = ['0', '1.5', '-2.25', '1e3', '0.1', '-1E-7', '3', ' 2.5 ', 'inf', '1234567.8901234', '0.30000000000000004', '1e300', '-0.0', '.5', '5.']
BOOLS = ['true', 'false', 'True', 'FALSE', 'TRUE', 'fAlSe', 'tRUE', 'False']
STRS = docs.TEXTS[:9] + ['', '  two  ', 'None', 'true', '0', '1.50', 'x.y', 'a\nb', '\U0001f600', 'http://x/y#z.w', '#_1', 'é' * 5]
IDS = ['_%d', 'id-%d', 'urn%d', 'Ä%d', '%d', 'a.b#%d', '_0x%d', 'x%dy', '#%d', '%d#', 'a b%d', '%dID', 'uuid:%d', '_%d_', '&%d', 'None%d']
PREFIXES = ['CIM', 'Cim', 'RDF', 'Rdf', 'cim2', 'cim16', '_cim', 'rdfs', 'xsd', 'md', 'owl', 'cim.x', 'entsoe']
URIS = ['http://iec.ch/TC57/2009/CIM-schema-cim14#', 'http://iec.ch/TC57/2010/CIM-schema-cim15#', 'http://iec.ch/TC57/2013/CIM-schema-cim16#', 'urn:other',
        RDF, RDF + 'x#', 'http://example.com/cim#', '#']
_byp = {}


def tables(p):
    """refs of each class usable inside the profile: key -> [(name, declaring key, [target keys])]."""
    if p in _byp:
        return _byp[p]
    pc = docs.profile_classes(p)
    keys = set(pc.values())
    out = {}
    for k in keys:
        l = []
        for n, (dk, r) in model.all_refs(k).items():
            if model.clash(k, n) or not n.isidentifier():
                continue
            ts = [t for b in model.targets(r[2]) for t in model.subclasses(b) if t in keys and not (r[3] and model.clash(t, r[3]))]
            if n in ('SequenceImpedance', 'PhaseImpedance') and n in model.views(k):
                ts = [t for t in ts if t.endswith('.PerLength' + n)]
            if ts:
                l.append((n, dk, ts))
        out[k] = l
    _byp[p] = (pc, sorted(keys), out)
    return _byp[p]


def text_for(rng, typ):
    if mine.lucky(rng, .1):
        return docs.value(rng, typ)
    return rng.choice({'str': STRS, 'int': INTS, 'float': FLOATS, 'bool': BOOLS}[typ])


def native(rng, typ):
    return docs.convert(typ, text_for(rng, typ))


def gen(rng, focus=None):
    p = rng.choice(PROFS + MAIN * 6)
    pc, keys, refs = tables(p)
    n = rng.choice([1, 2, 3, 4, 6, 9])
    sizes = mine.package().sizes
    if sizes and mine.lucky(rng, .02):
        n = rng.choice(sizes)
    elif mine.DEEP and rng.random() < .02:
        n = rng.choice([30, 70, 150])
    # a connected set of classes: grow along references
    ks = [rng.choice(keys)]
    while len(ks) < n:
        l = refs[rng.choice(ks)]
        if l and rng.random() < .85:
            ks.append(rng.choice(rng.choice(l)[2]))
        elif rng.random() < .4:
            ks.append(rng.choice(ks))
        else:
            ks.append(rng.choice(keys))
    pat = rng.choice(IDS) if rng.random() < .6 else None
    objs = [(k, (pat or rng.choice(IDS)) % i) for i, k in enumerate(ks)]
    if mine.lucky(rng, .1):
        x, i = rng.randrange(n), rng.choice(mine.package().attr_texts)
        if i and all(i != j for k, j in objs) and i[0] not in '_#' or mine.lucky(rng, .3) and i and i[0] not in '_#':
            i = i if all(i != j for k, j in objs) else i + '%d' % x
            if all(i != j for k, j in objs):
                objs[x] = (objs[x][0], i)
    nstart = rng.choice([0, 0, 1, 2, n]) if focus != 'C09' else 0
    nstart = min(nstart, n)
    start = []
    for k, i in objs[:nstart]:
        at = {}
        for a, (dk, s) in model.all_attrs(k).items():
            if a != 'UUID' and rng.random() < .3:
                at[a] = rng.choice(docs.enum_literals(k, s[3])) if s[3] else native(rng, s[1])
        start.append([k, i, at])
    slinks = []
    for _ in range(rng.choice([0, 1, 3]) if nstart else 0):
        c = candidates(rng, refs, objs[:nstart])
        if c:
            slinks.append(c)
    els = []
    # most objects get an element; start objects sometimes none, about, or ID
    for x, (k, i) in enumerate(objs):
        if x < nstart:
            r = rng.random()
            if r < .25:
                continue
            idk = 'about' if r < .8 else 'ID'
            kk = k
            if idk == 'ID' and rng.random() < .3:
                kk = rng.choice(keys)
                objs[x] = (kk, i)
            els.append(dict(cls=kk.rpartition('.')[2], id=i, idk=idk, ns='cim', kids=[], key=kk))
        else:
            els.append(dict(cls=k.rpartition('.')[2], id=i, idk='ID' if rng.random() < .8 else 'about', ns='cim', kids=[], key=k))
            while rng.random() < .25:
                els.append(dict(cls=k.rpartition('.')[2], id=i, idk='about', ns='cim', kids=[], key=k))
    rng.shuffle(els)
    density = rng.choice([.05, .2, .6])
    heavy = rng.choice([0, 1, 3, 6])
    if sizes and mine.lucky(rng, .01) and n < 30:
        heavy = rng.choice(sizes)
    for e in els:
        k = e['key']
        kids = e['kids']
        for a, (dk, s) in model.all_attrs(k).items():
            if a == 'UUID' or rng.random() > density:
                continue
            cn = dk.rpartition('.')[2]
            for _ in range(rng.choice([1, 1, 1, 2])):
                if s[3] and (s[2] is None or rng.random() < .9):
                    kids.append(('enum', cn + '.' + a, s[3], rng.choice(docs.enum_literals(k, s[3]))))
                else:
                    kids.append(('text', cn + '.' + a, text_for(rng, s[1]) if not s[3] else 'plain'))
        for _ in range(heavy):
            c = candidates(rng, refs, objs, (k, e['id']))
            if c:
                kids.append(('ref', c[3] + '.' + c[1], c[2]))
                if rng.random() < .4:       # state it at the other end too
                    inv = model.all_refs(k)[c[1]][1][3]
                    t = [f for f in els if f['id'] == c[2]]
                    if inv and t:
                        q = model.find_ref(t[0]['key'], inv)
                        if q[0] and not (inv in model.views(t[0]['key']) and inv[0] != e['cls'][9:10]):
                            rng.choice(t)['kids'].append(('ref', q[0].rpartition('.')[2] + '.' + inv, e['id']))
        if rng.random() < .4:
            for _ in range(rng.choice([1, 2])):
                l = list(model.all_refs(k).items())
                j = rng.random()
                if j < .4 and l:
                    nm, (dk, r) = rng.choice(l)
                    if nm.isidentifier():
                        kids.append(('ref', dk.rpartition('.')[2] + '.' + nm, '_dangling'))
                elif j < .6:
                    kids.append(('ftree', '', ('deep', 'x', [('deeper', 'y', []), ('name', 'z', [('b', '', [])])])))
                elif j < .7:
                    kids.append(('comment', 'a - b'))
                elif j < .8:
                    kids.append(('fenum', 'Terminal.phases', 'PhaseCode', 'A'))
                else:
                    kids.append(docs.junk_kid(rng))
        rng.shuffle(kids)
    for j in range(rng.choice([0, 0, 0, 1, 3])):
        f = rng.choice([docs.junk_el, docs.unknown_el])(rng, j)
        els.insert(rng.randrange(len(els) + 1), dict(cls=f.cls, id=f.id, idk=f.idk, ns=f.ns, kids=f.kids, key=''))
    ids = [e['id'] for e in els if e['idk'] == 'ID' and e['ns'] == 'cim']
    if len(ids) != len(set(ids)):
        els = [e for e in els if ids.count(e['id']) == 1 or e['idk'] != 'ID']
    # an element of a known class whose object has been redefined by another class keeps its own properties only
    opts = dict(rdf=rng.choice(['rdf', 'rdf', 'rdf', 'r']), cim='cim', ext=rng.choice(['ext', 'a', 'z', 'cims']), decl=rng.random() < .8, hash='#', rdfns=RDF,
                nl=rng.choice(['\n', '', '\n\t  ']), lead=rng.choice(['', '', '<!-- c -->\n', '<?p q?>']), trail=rng.choice(['', '\n', '<!-- end -->']),
                order=rng.random() < .5, short=rng.random() < .7, xattr=rng.random() < .1)
    if rng.random() < .3:
        opts['more'] = [[q, rng.choice(URIS)] for q in rng.sample(PREFIXES, rng.choice([1, 2, 4])) if q != opts['ext']]
    if rng.random() < .4:
        opts['exturi'] = rng.choice(['CIM-ext#', 'CIM#ext#', 'CIM', 'CIM##', 'CIM/', 'CIM/', 'CI_#', 'http://x/?CIM#', RDF + '#', RDF[:-1]])
    opts['inner'] = rng.random() < .15
    explicit = p not in MAIN or rng.random() < .2
    uri = None
    if explicit:
        opts['cim'] = rng.choice(['cim', 'c', 'x1'])
        if rng.random() < .3:
            uri = 'urn:my:ns'
    elif p == 'CIM15' and rng.random() < .5:
        uri = rng.choice(['http://iec.ch/TC57/2013/CIM-schema-cim16', 'http://iec.ch/TC57/2011/CIM-schema-cim17', 'urn:x', 'http://iec.ch/TC57/2009/CIM-schema-cim14x'])
    form = rng.choice(['bytes', 'bytes', 'bytes', 'path', 'trickle', 'duck', 'file', 'text'])
    if form == 'text':
        opts['decl'] = False
    return dict(general=1, els=els, profile=p, explicit=explicit, uri=uri, opts=opts, start=start if nstart or rng.random() < .2 else None,
                slinks=slinks, form=form, twice=rng.choice([None, None, None, 'bytes', 'trickle', 'path']), step=rng.choice([1, 3, 17]))


def candidates(rng, refs, objs, holder=None):
    """A random well-typed link among objs: [holder id, ref, target id, declaring class] or None."""
    for _ in range(4):
        k, i = holder or rng.choice(objs)
        l = refs.get(k)
        if not l:
            continue
        # prefer references with a target among the objects
        rng_l = rng.sample(l, min(len(l), 12))
        for n, dk, ts in rng_l + l:
            c = [j for kk, j in objs if kk in ts and not (j == i and model.all_refs(k)[n][1][3] == n)]
            if c:
                return [i, n, rng.choice(c), dk.rpartition('.')[2]]
    return None


def build_start(c):
    d, s = {}, {}
    for key, i, attrs in c['start'] or []:
        d[i] = model.cls(key)(UUID=i)
        s[i] = Spec(key)
        s[i].attrs['UUID'] = i
        for n, v in attrs.items():
            setattr(d[i], n, v)
            s[i].attrs[n] = v
    for i, n, j, _ in c['slinks']:
        if isinstance(getattr(d[i], n), list):
            getattr(d[i], 'add' + n)(d[j])
        else:
            setattr(d[i], n, d[j])
        link(s, i, n, j)
    return d, s


def read(text, form, step, **kw):
    if form == 'duck':
        from PyCIM.RDFXMLReader import cimread
        return cimread(Duck(text.encode('utf-8')), **kw)
    if form == 'trickle':
        from PyCIM.RDFXMLReader import cimread
        f = Trickle(text.encode('utf-8'))
        f.step = step
        return cimread(f, **kw)
    return docs.read(text, form, **kw)


def run(c, prop=None):
    parts = {'C06': ('ids',), 'C07': ('attrs',), 'C08': ('refs',)}.get(prop, ('ids', 'attrs', 'refs'))
    p = c['profile']
    pm = model.PROFILES[p]['packageMap']
    uri = c.get('uri') or model.PROFILES[p]['nsURI']
    text = render(c['els'], uri, c['opts'])
    kw = {}
    if c['explicit']:
        import importlib
        kw = dict(packageMap=importlib.import_module(p).packageMap, nsURI=uri)
    start, spec = build_start(c)
    keep = dict(start)
    want = expected(c['els'], pm, spec)
    if c['start'] is not None:
        kw['start_dict'] = start
    try:
        got = read(text, c['form'], c['step'], **kw)
        if c['start'] is not None and got is not start:
            return 'the start dictionary is not the map returned', text
        for i, o in keep.items():
            if 'old:' + i not in want and got.get(i) is not o:
                return 'entry %s of the start dictionary was replaced' % i, text
            if 'old:' + i in want and got.get(i) is o:
                return 'entry %s still is the object of the start dictionary, not one of the class its element names' % i, text
        if 'ids' in parts and set(got) != {i for i in want if not i.startswith('old:')}:
            w = {i for i in want if not i.startswith('old:')}
            return 'identifiers: unexpected %s, missing %s' % (sorted(set(got) - w)[:4], sorted(w - set(got))[:4]), text
        full = dict(got)
        for i in want:
            if i.startswith('old:'):
                full[i] = keep[i[4:]]
        m = docs.compare({i: full[i] for i in want if i in full}, want, parts)
        if m:
            return m, text
        if c.get('twice') and c['start'] is None:
            got2 = read(text, c['twice'], c['step'], **kw)
            m = docs.compare(got2, want, parts)
            if m:
                return 'second read: ' + m, text
            if any(got2[i] is got.get(i) for i in got2):
                return 'two reads share an object', text
            m = docs.compare(got, want, parts)
            if m:
                return 'first result changed by the second read: ' + m, text
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        return '%s: %s (%s)' % (type(e).__name__, e, ', '.join('%s:%d' % (x.name, x.lineno) for x in tb[-2:])), text
    return None


def shrink(c, prop):
    r = run(c, prop)
    best = c
    tries = 0

    def attempt(n):
        nonlocal best, r, tries
        tries += 1
        try:
            q = run(n, prop)
        except Exception:
            return False
        if q:
            best, r = n, q
            return True
        return False
    for f, v in (('twice', None), ('form', 'bytes'), ('slinks', [])):
        if best[f] != v:
            attempt(dict(best, **{f: v}))
    ch = True
    while ch and tries < 500:
        ch = False
        for i in range(len(best['els']) - 1, -1, -1):
            if i < len(best['els']) and attempt(dict(best, els=best['els'][:i] + best['els'][i + 1:])):
                ch = True
        for i in range(len(best['els'])):
            for j in range(len(best['els'][i]['kids']) - 1, -1, -1):
                e = dict(best['els'][i])
                if j < len(e['kids']):
                    e['kids'] = e['kids'][:j] + e['kids'][j + 1:]
                    if attempt(dict(best, els=best['els'][:i] + [e] + best['els'][i + 1:])):
                        ch = True
    return dict(case=best, msg=r[0], text=r[1])


def same_path(seed):
    """C09: a path read again after the file has been replaced."""
    from PyCIM.RDFXMLReader import cimread
    rng = random.Random(seed)
    with tempfile.TemporaryDirectory() as t:
        path = os.path.join(t, 'm.xml')
        hist = []
        for n in range(4):
            while True:
                c = gen(rng, 'C09')
                if not c['explicit']:
                    break
            pm = model.PROFILES[c['profile']]['packageMap']
            text = render(c['els'], c.get('uri') or model.PROFILES[c['profile']]['nsURI'], c['opts'])
            hist.append(text)
            want = expected(c['els'], pm, {})
            with open(path, 'w', encoding='utf-8') as f:
                f.write(text)
            try:
                m = docs.compare(cimread(path), want)
            except Exception as e:
                m = '%s: %s' % (type(e).__name__, e)
            if m:
                return 'document %d read from the same path: %s' % (n + 1, m), '\n---- then ----\n'.join(hist)
    return None
